//! The names and literals of a syntax tree in source order; or, in full, every
//! token a tree accounts for: all but parentheses, inserted semicolons and
//! the comma before a closing bracket.
use easter::punc::{AssopTag, BinopTag, LogopTag, Op, Semi, UnopTag};
use easter::decl::{ConstDtor, Decl, Dtor, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::stmt::{Block, ForHead, ForInHead, ForOfHead, Dir, ModItem, Module, Script, Stmt, StmtListItem};
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral};
use joker::track::{Posn, Span, TrackingRef};

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    W(String),
    N(u64),
    S(String),
    R(String, String),
    /// Punctuation (in full only).
    P(&'static str),
}

/// Where the tree says a token is.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc {
    /// The tree does not say.
    Any,
    At(Option<Span>),
    From(Option<Posn>),
    To(Option<Posn>),
}

/// Words that appear in programs without appearing in trees.
const SILENT: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "finally", "for",
    "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "throw", "try", "typeof", "var", "void", "while", "with",
    "enum", "let", "get", "set", "of", "target",
];
pub fn silent(w: &str) -> bool {
    SILENT.contains(&w)
}

#[derive(Default)]
pub struct Walk {
    pub full: bool,
    pub out: Vec<M>,
    /// One for each of `out`.
    pub locs: Vec<Loc>,
    /// The extents of all nodes.
    pub spans: Vec<Option<Span>>,
    pub nodes: u64,
}

pub fn unop(t: &UnopTag) -> &'static str {
    match *t {
        UnopTag::Minus => "-",
        UnopTag::Plus => "+",
        UnopTag::Not => "!",
        UnopTag::BitNot => "~",
        UnopTag::Typeof => "typeof",
        UnopTag::Void => "void",
        UnopTag::Delete => "delete",
    }
}
pub fn binop(t: &BinopTag) -> &'static str {
    match *t {
        BinopTag::Eq => "==",
        BinopTag::NEq => "!=",
        BinopTag::StrictEq => "===",
        BinopTag::StrictNEq => "!==",
        BinopTag::Lt => "<",
        BinopTag::LEq => "<=",
        BinopTag::Gt => ">",
        BinopTag::GEq => ">=",
        BinopTag::LShift => "<<",
        BinopTag::RShift => ">>",
        BinopTag::URShift => ">>>",
        BinopTag::Plus => "+",
        BinopTag::Minus => "-",
        BinopTag::Times => "*",
        BinopTag::Div => "/",
        BinopTag::Mod => "%",
        BinopTag::BitOr => "|",
        BinopTag::BitXor => "^",
        BinopTag::BitAnd => "&",
        BinopTag::In => "in",
        BinopTag::Instanceof => "instanceof",
    }
}
pub fn assop(t: &AssopTag) -> &'static str {
    match *t {
        AssopTag::PlusEq => "+=",
        AssopTag::MinusEq => "-=",
        AssopTag::TimesEq => "*=",
        AssopTag::DivEq => "/=",
        AssopTag::ModEq => "%=",
        AssopTag::LShiftEq => "<<=",
        AssopTag::RShiftEq => ">>=",
        AssopTag::URShiftEq => ">>>=",
        AssopTag::BitOrEq => "|=",
        AssopTag::BitXorEq => "^=",
        AssopTag::BitAndEq => "&=",
    }
}

impl Walk {
    pub fn in_full() -> Walk {
        Walk { full: true, ..Walk::default() }
    }
    fn put(&mut self, m: M, l: Loc) {
        self.out.push(m);
        self.locs.push(l);
    }
    /// Punctuation or a keyword that only a full account mentions.
    fn tok(&mut self, t: &'static str, l: Loc) {
        if self.full {
            let word = t.as_bytes()[0].is_ascii_alphabetic();
            self.put(if word { M::W(t.to_string()) } else { M::P(t) }, l);
        }
    }
    fn t(&mut self, t: &'static str) {
        self.tok(t, Loc::Any);
    }
    fn op<T>(&mut self, o: &Op<T>, t: &'static str) {
        self.tok(t, Loc::At(o.location));
    }
    fn semi(&mut self, s: &Semi) {
        if let Semi::Explicit(p) = *s {
            self.tok(";", Loc::From(p));
        }
    }
    fn node(&mut self, x: &dyn TrackingRef) {
        self.nodes += 1;
        self.spans.push(*x.tracking_ref());
    }
    fn word(&mut self, w: &str, l: Loc) {
        if self.full || !silent(w) {
            self.put(M::W(w.to_string()), l);
        }
    }
    fn id(&mut self, id: &Id) {
        let w: String = id.name.as_ref().to_string();
        self.word(&w, Loc::At(id.location));
    }
    fn string(&mut self, s: &StringLiteral, l: Loc) {
        self.put(M::S(s.value.clone()), l);
    }
    fn number(&mut self, n: &NumberLiteral, l: Loc) {
        self.put(M::N(n.value.to_bits()), l);
    }
    fn regexp(&mut self, r: &RegExpLiteral, l: Loc) {
        let mut f = r.flags.clone();
        f.sort();
        self.put(M::R(r.pattern.clone(), f.into_iter().collect()), l);
    }
    pub fn script(&mut self, s: &Script) {
        self.node(s);
        self.dirs(&s.dirs);
        self.items(&s.items);
    }
    fn body(&mut self, s: &Script) {
        self.t("{");
        self.script(s);
        self.t("}");
    }
    pub fn module(&mut self, m: &Module) {
        self.node(m);
        self.dirs(&m.dirs);
        for i in &m.items {
            match *i {
                ModItem::StmtListItem(ref i) => self.item(i),
                ModItem::Import(Import::ForEffect(l, ref s)) => {
                    self.node(&l);
                    self.t("import");
                    self.string(s, Loc::Any);
                }
                ModItem::Export(Export::Var(l, ref d, ref s)) => {
                    self.node(&l);
                    self.t("export");
                    self.t("var");
                    self.dtors(d);
                    self.semi(s);
                }
                ModItem::Export(Export::Decl(ref d)) => {
                    self.t("export");
                    self.decl(d);
                }
            }
        }
    }
    fn dirs(&mut self, d: &[Dir]) {
        for d in d {
            self.node(d);
            self.string(&d.string, Loc::Any);
            self.semi(&d.semi);
        }
    }
    fn items(&mut self, v: &[StmtListItem]) {
        for i in v {
            self.item(i);
        }
    }
    fn item(&mut self, i: &StmtListItem) {
        match *i {
            StmtListItem::Decl(ref d) => self.decl(d),
            StmtListItem::Stmt(ref s) => self.stmt(s),
        }
    }
    fn fun<T>(&mut self, f: &Fun<T>, key: bool, id: &mut dyn FnMut(&mut Walk, &T)) {
        self.node(f);
        if !key {
            self.t("function");
        }
        if f.generator {
            self.t("*");
        }
        id(self, &f.id);
        self.params(&f.params);
        self.body(&f.body);
    }
    fn decl(&mut self, d: &Decl) {
        self.node(d);
        match *d {
            Decl::Fun(ref f) => self.fun(f, false, &mut |w, i| w.id(i)),
            Decl::Let(_, ref d, ref s) => {
                self.t("let");
                self.dtors(d);
                self.semi(s);
            }
            Decl::Const(_, ref d, ref s) => {
                self.t("const");
                self.const_dtors(d);
                self.semi(s);
            }
        }
    }
    fn dtors(&mut self, v: &[Dtor]) {
        for (k, d) in v.iter().enumerate() {
            if k > 0 {
                self.t(",");
            }
            self.node(d);
            match *d {
                Dtor::Simple(_, ref i, ref e) => {
                    self.id(i);
                    if let Some(ref e) = *e {
                        self.t("=");
                        self.expr(e);
                    }
                }
                Dtor::Compound(_, ref p, ref e) => {
                    self.compound(p, &mut |w, i| w.id(i));
                    self.t("=");
                    self.expr(e);
                }
            }
        }
    }
    fn const_dtors(&mut self, v: &[ConstDtor]) {
        for (k, d) in v.iter().enumerate() {
            if k > 0 {
                self.t(",");
            }
            self.node(d);
            self.id_patt(&d.patt);
            self.t("=");
            self.expr(&d.value);
        }
    }
    fn id_patt(&mut self, p: &Patt<Id>) {
        self.patt(p, &mut |w, i| w.id(i))
    }
    fn patt<T: TrackingRef>(&mut self, p: &Patt<T>, f: &mut dyn FnMut(&mut Walk, &T)) {
        match *p {
            Patt::Simple(ref x) => f(self, x),
            Patt::Compound(ref c) => self.compound(c, f),
        }
    }
    fn compound<T: TrackingRef>(&mut self, c: &CompoundPatt<T>, f: &mut dyn FnMut(&mut Walk, &T)) {
        self.node(c);
        match *c {
            CompoundPatt::Arr(_, ref v, ref rest) => {
                self.t("[");
                for (k, p) in v.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    if let Some(ref p) = *p {
                        self.patt(p, f);
                    }
                }
                if let Some(ref r) = *rest {
                    if !v.is_empty() {
                        self.t(",");
                    }
                    self.node(&r.location);
                    self.t("...");
                    self.patt(&r.patt, f);
                }
                self.t("]");
            }
            CompoundPatt::Obj(_, ref v) => {
                self.t("{");
                for (k, p) in v.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    match *p {
                        PropPatt::Regular(l, ref k, ref p) => {
                            self.node(&l);
                            self.key(k);
                            self.t(":");
                            self.patt(p, f);
                        }
                        PropPatt::Shorthand(ref i) => self.id(i),
                    }
                }
                self.t("}");
            }
        }
    }
    fn target(&mut self, t: &AssignTarget) {
        self.node(t);
        match *t {
            AssignTarget::Id(ref i) => self.id(i),
            AssignTarget::Dot(_, ref o, ref k) => {
                self.expr(o);
                self.t(".");
                self.word(&k.value, Loc::At(k.location));
            }
            AssignTarget::Brack(_, ref o, ref k) => {
                self.expr(o);
                self.t("[");
                self.expr(k);
                self.t("]");
            }
        }
    }
    fn params(&mut self, p: &Params) {
        self.node(p);
        for (k, p) in p.list.iter().enumerate() {
            if k > 0 {
                self.t(",");
            }
            self.id_patt(p);
        }
        if let Some(ref r) = p.rest {
            if !p.list.is_empty() {
                self.t(",");
            }
            self.node(&r.location);
            self.t("...");
            self.id_patt(&r.patt);
        }
    }
    fn block(&mut self, b: &Block) {
        self.node(b);
        self.t("{");
        self.items(&b.items);
        self.t("}");
    }
    fn opt(&mut self, e: &Option<Expr>) {
        if let Some(ref e) = *e {
            self.expr(e)
        }
    }
    fn stmt(&mut self, s: &Stmt) {
        self.node(s);
        let kw = if let Stmt::Break(..) = *s { "break" } else { "continue" };
        match *s {
            Stmt::Empty(_) => self.t(";"),
            Stmt::Debugger(_, ref s) => {
                self.t("debugger");
                self.semi(s);
            }
            Stmt::Block(ref b) => self.block(b),
            Stmt::Var(_, ref d, ref s) => {
                self.t("var");
                self.dtors(d);
                self.semi(s);
            }
            Stmt::Expr(_, ref e, ref s) => {
                self.expr(e);
                self.semi(s);
            }
            Stmt::Throw(_, ref e, ref s) => {
                self.t("throw");
                self.expr(e);
                self.semi(s);
            }
            Stmt::If(_, ref e, ref a, ref b) => {
                self.t("if");
                self.expr(e);
                self.stmt(a);
                if let Some(ref b) = *b {
                    self.t("else");
                    self.stmt(b);
                }
            }
            Stmt::Label(_, ref i, ref b) => {
                self.id(i);
                self.t(":");
                self.stmt(b);
            }
            Stmt::Break(_, ref i, ref s) | Stmt::Cont(_, ref i, ref s) => {
                self.t(kw);
                if let Some(ref i) = *i {
                    self.id(i);
                }
                self.semi(s);
            }
            Stmt::With(_, ref e, ref b) => {
                self.t("with");
                self.expr(e);
                self.stmt(b);
            }
            Stmt::While(_, ref e, ref b) => {
                self.t("while");
                self.expr(e);
                self.stmt(b);
            }
            Stmt::Switch(_, ref e, ref cs) => {
                self.t("switch");
                self.expr(e);
                self.t("{");
                for c in cs {
                    self.node(c);
                    self.t(if c.test.is_some() { "case" } else { "default" });
                    self.opt(&c.test);
                    self.t(":");
                    self.items(&c.body);
                }
                self.t("}");
            }
            Stmt::Return(_, ref e, ref s) => {
                self.t("return");
                self.opt(e);
                self.semi(s);
            }
            Stmt::Try(_, ref b, ref c, ref f) => {
                self.t("try");
                self.block(b);
                if let Some(ref c) = *c {
                    self.node(&**c);
                    self.t("catch");
                    self.id_patt(&c.param);
                    self.block(&c.body);
                }
                if let Some(ref f) = *f {
                    self.t("finally");
                    self.block(f);
                }
            }
            Stmt::DoWhile(_, ref b, ref e, ref s) => {
                self.t("do");
                self.stmt(b);
                self.t("while");
                self.expr(e);
                self.semi(s);
            }
            Stmt::For(_, ref h, ref t, ref u, ref b) => {
                self.t("for");
                if let Some(ref h) = *h {
                    self.node(&**h);
                    match **h {
                        ForHead::Var(_, ref d) => {
                            self.t("var");
                            self.dtors(d)
                        }
                        ForHead::Let(_, ref d) => {
                            self.t("let");
                            self.dtors(d)
                        }
                        ForHead::Const(_, ref d) => {
                            self.t("const");
                            self.const_dtors(d)
                        }
                        ForHead::Expr(_, ref e) => self.expr(e),
                    }
                }
                self.t(";");
                self.opt(t);
                self.t(";");
                self.opt(u);
                self.stmt(b);
            }
            Stmt::ForIn(_, ref h, ref e, ref b) => {
                self.t("for");
                self.node(&**h);
                match **h {
                    ForInHead::VarInit(_, ref i, ref e) => {
                        self.t("var");
                        self.id(i);
                        self.t("=");
                        self.expr(e);
                    }
                    ForInHead::Var(_, ref p) => self.head("var", p),
                    ForInHead::Let(_, ref p) => self.head("let", p),
                    ForInHead::Const(_, ref p) => self.head("const", p),
                    ForInHead::Patt(ref p) => self.patt(p, &mut |w, t| w.target(t)),
                }
                self.t("in");
                self.expr(e);
                self.stmt(b);
            }
            Stmt::ForOf(_, ref h, ref e, ref b) => {
                self.t("for");
                self.node(&**h);
                match **h {
                    ForOfHead::Var(_, ref p) => self.head("var", p),
                    ForOfHead::Let(_, ref p) => self.head("let", p),
                    ForOfHead::Const(_, ref p) => self.head("const", p),
                    ForOfHead::Patt(ref p) => self.patt(p, &mut |w, t| w.target(t)),
                }
                self.t("of");
                self.expr(e);
                self.stmt(b);
            }
        }
    }
    fn head(&mut self, kw: &'static str, p: &Patt<Id>) {
        self.t(kw);
        self.id_patt(p);
    }
    fn key(&mut self, k: &PropKey) {
        match *k {
            PropKey::Id(l, ref s) => self.word(s, Loc::At(l)),
            PropKey::String(l, ref s) => self.string(s, Loc::At(l)),
            PropKey::Number(l, ref n) => self.number(n, Loc::At(l)),
        }
    }
    fn list(&mut self, v: &[ExprListItem]) {
        for (k, i) in v.iter().enumerate() {
            if k > 0 {
                self.t(",");
            }
            self.list_item(i);
        }
    }
    fn list_item(&mut self, i: &ExprListItem) {
        match *i {
            ExprListItem::Expr(ref e) => self.expr(e),
            ExprListItem::Spread(l, ref e) => {
                self.node(&l);
                self.t("...");
                self.expr(e)
            }
        }
    }
    fn expr(&mut self, e: &Expr) {
        self.node(e);
        let all = *e.tracking_ref();
        let (from, to) = (Loc::From(all.map(|s| s.start)), Loc::To(all.map(|s| s.end)));
        match *e {
            Expr::This(l) => self.word("this", Loc::At(l)),
            Expr::True(l) => self.word("true", Loc::At(l)),
            Expr::False(l) => self.word("false", Loc::At(l)),
            Expr::Null(l) => self.word("null", Loc::At(l)),
            Expr::NewTarget(_) => {
                self.tok("new", from);
                self.t(".");
                self.tok("target", to);
            }
            Expr::Id(ref i) => self.id(i),
            Expr::Number(l, ref n) => self.number(n, Loc::At(l)),
            Expr::String(l, ref s) => self.string(s, Loc::At(l)),
            Expr::RegExp(l, ref r) => self.regexp(r, Loc::At(l)),
            Expr::Arr(_, ref v) => {
                self.tok("[", from);
                for (k, i) in v.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    if let Some(ref i) = *i {
                        self.list_item(i);
                    }
                }
                self.tok("]", to);
            }
            Expr::Obj(_, ref v) => {
                self.tok("{", from);
                for (k, p) in v.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    match *p {
                        Prop::Regular(l, ref k, ref v) => {
                            self.node(&l);
                            match *v {
                                PropVal::Init(ref e) => {
                                    self.key(k);
                                    self.t(":");
                                    self.expr(e)
                                }
                                PropVal::Get(l, ref b) => {
                                    self.node(&l);
                                    self.t("get");
                                    self.key(k);
                                    self.body(b)
                                }
                                PropVal::Set(l, ref p, ref b) => {
                                    self.node(&l);
                                    self.t("set");
                                    self.key(k);
                                    self.id_patt(p);
                                    self.body(b);
                                }
                            }
                        }
                        Prop::Method(ref f) => self.fun(f, true, &mut |w, k| w.key(k)),
                        Prop::Shorthand(ref i) => self.id(i),
                    }
                }
                self.tok("}", to);
            }
            Expr::Fun(ref f) => self.fun(f, false, &mut |w, i| {
                if let Some(ref i) = *i {
                    w.id(i)
                }
            }),
            Expr::Seq(_, ref v) => {
                for (k, e) in v.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    self.expr(e);
                }
            }
            Expr::Unop(_, ref o, ref e) => {
                self.op(o, unop(&o.tag));
                self.expr(e)
            }
            Expr::Binop(_, ref o, ref a, ref b) => {
                self.expr(a);
                self.op(o, binop(&o.tag));
                self.expr(b);
            }
            Expr::Logop(_, ref o, ref a, ref b) => {
                self.expr(a);
                self.op(o, match o.tag {
                    LogopTag::Or => "||",
                    LogopTag::And => "&&",
                });
                self.expr(b);
            }
            Expr::Brack(_, ref a, ref b) => {
                self.expr(a);
                self.t("[");
                self.expr(b);
                self.tok("]", to);
            }
            Expr::PreInc(_, ref t) => {
                self.t("++");
                self.target(t)
            }
            Expr::PreDec(_, ref t) => {
                self.t("--");
                self.target(t)
            }
            Expr::PostInc(_, ref t) => {
                self.target(t);
                self.t("++");
            }
            Expr::PostDec(_, ref t) => {
                self.target(t);
                self.t("--");
            }
            Expr::Assign(_, ref p, ref e) => {
                self.patt(p, &mut |w, t| w.target(t));
                self.t("=");
                self.expr(e);
            }
            Expr::BinAssign(_, ref o, ref t, ref e) => {
                self.target(t);
                self.op(o, assop(&o.tag));
                self.expr(e);
            }
            Expr::Cond(_, ref a, ref b, ref c) => {
                self.expr(a);
                self.t("?");
                self.expr(b);
                self.t(":");
                self.expr(c);
            }
            Expr::Call(_, ref c, ref v) => {
                self.expr(c);
                self.list(v);
            }
            Expr::New(_, ref c, ref v) => {
                self.tok("new", from);
                self.expr(c);
                if let Some(ref v) = *v {
                    self.list(v);
                }
            }
            Expr::Dot(_, ref o, ref k) => {
                self.expr(o);
                self.t(".");
                self.word(&k.value, Loc::At(k.location));
            }
        }
    }
}
