//! An independent, direct reading of the syntactic grammar over a complete
//! text: is it a program, and if so, how is it put together (written as in
//! `shape.rs`), which semicolons were written, and what in it is out of place?
//! Where the supported part of the grammar leaves it open, or it has changed
//! between editions, the text is not judged.
use crate::model::{MTok, Model, Res, Val};
use crate::rules::Off;

pub enum Reading {
    /// Not derived by the grammar.
    No(No),
    Open(&'static str),
    Yes {
        shape: String,
        /// Is every literal's value known?
        exact: bool,
        semis: Vec<bool>,
        offences: Vec<Off>,
    },
}

/// Why a text is no program.
pub struct No {
    pub why: String,
    /// Where the first token stands that cannot follow what comes before it,
    /// or where the last one ended before what is no token.
    pub at: usize,
    pub token: bool,
    /// Where the token before it stands.
    pub before: Option<usize>,
    /// What should stand there.
    pub wanted: String,
    /// What is out of place before it.
    pub offences: Vec<Off>,
    /// Is there something before it that is not settled?
    pub vague: bool,
}

pub fn read(text: &[char], strict: bool, module: bool) -> Reading {
    let mut g = G {
        m: Model::new(text),
        look: None,
        text,
        strict,
        module,
        gen: false,
        function: false,
        iteration: false,
        switch: false,
        labels: vec![],
        bad: vec![],
        open: None,
        exact: true,
        semis: vec![],
        depth: 0,
        last: None,
    };
    match g.program() {
        Err(Stop::No(mut n)) => {
            n.offences = g.bad;
            n.vague = g.open.is_some();
            Reading::No(n)
        }
        Err(Stop::Open(m)) => Reading::Open(m),
        Ok(shape) => match g.open {
            Some(m) => Reading::Open(m),
            None => Reading::Yes { shape, exact: g.exact, semis: g.semis, offences: g.bad },
        },
    }
}

enum Stop {
    No(No),
    Open(&'static str),
}
type R<T> = Result<T, Stop>;

/// Keeps the real stack out of trouble.
const DEEPEST: usize = 300;

#[derive(Clone)]
struct Look {
    op: bool,
    tok: MTok,
    before: (usize, Option<bool>, Option<bool>),
}

#[derive(Clone, Copy, PartialEq)]
enum Use {
    Bind,
    Ref,
    Target,
    Label,
}

enum Kind {
    Name(String),
    Member,
    /// Elements (spread or not), and whether a comma follows a last spread.
    Arr(Vec<Option<(bool, Ex)>>, bool),
    Obj(Vec<Pr>),
    /// A string literal, as written between its quotes.
    Str(String),
    Asg,
    Other,
}
struct Ex {
    s: String,
    kind: Kind,
    par: bool,
}
enum Pr {
    Init(String, Ex),
    Short(String),
    Code,
}

fn list(head: &str, items: &[String]) -> String {
    let mut s = String::from("(");
    s.push_str(head);
    for i in items {
        s.push(' ');
        s.push_str(i);
    }
    s.push(')');
    s
}
fn or_none(o: Option<String>) -> String {
    o.unwrap_or_else(|| "-".to_string())
}
fn id(n: &str) -> String {
    format!("i:{}", n)
}
fn other(s: String) -> Ex {
    Ex { s, kind: Kind::Other, par: false }
}

/// What is known but not supported.
pub const PATTERN: &str = "a name, not a pattern,";
pub const ITEM: &str = "a statement, not an import or export,";

const STRICT_WORDS: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];
fn special(n: &str) -> bool {
    STRICT_WORDS.contains(&n) || matches!(n, "eval" | "arguments" | "await")
}
fn level(op: &str) -> Option<u8> {
    Some(match op {
        "||" => 1,
        "&&" => 2,
        "|" => 3,
        "^" => 4,
        "&" => 5,
        "==" | "!=" | "===" | "!==" => 6,
        "<" | ">" | "<=" | ">=" | "instanceof" | "in" => 7,
        "<<" | ">>" | ">>>" => 8,
        "+" | "-" => 9,
        "*" | "/" | "%" => 10,
        _ => return None,
    })
}
fn assigns(op: &str) -> bool {
    matches!(op, "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "<<=" | ">>=" | ">>>=" | "&=" | "|=" | "^=")
}
fn octal(raw: &str) -> bool {
    let c: Vec<char> = raw.chars().collect();
    let mut i = 0;
    while i + 1 < c.len() {
        if c[i] == '\\' {
            let d = c[i + 1];
            if d.is_ascii_digit() && !(d == '0' && !c.get(i + 2).map_or(false, |c| c.is_ascii_digit())) {
                return true;
            }
            i += 1;
        }
        i += 1;
    }
    false
}

struct G<'a> {
    m: Model<'a>,
    look: Option<Look>,
    text: &'a [char],
    strict: bool,
    module: bool,
    gen: bool,
    function: bool,
    iteration: bool,
    switch: bool,
    labels: Vec<(String, bool)>,
    bad: Vec<Off>,
    open: Option<&'static str>,
    exact: bool,
    semis: Vec<bool>,
    depth: usize,
    /// Where the last token taken stands.
    last: Option<usize>,
}

impl<'a> G<'a> {
    // ------------------------------------------------------------ tokens

    fn scan(&mut self, op: bool) -> R<Look> {
        let before = (self.m.pos, self.m.line_start, self.m.broken);
        let r = self.m.next(op);
        self.odd_trivia(before.0, match r {
            Res::Tok(ref t) => t.start,
            _ => self.text.len(),
        })?;
        match r {
            Res::Tok(tok) => Ok(Look { op, tok, before }),
            Res::Err(e) => Err(Stop::No(No { why: format!("{} after offset {}", e, before.0), at: before.0, token: false, before: self.last, wanted: String::new(), offences: vec![], vague: false })),
            Res::Gray => Err(Stop::Open("a token is not judged")),
        }
    }
    /// Comments only scripts have are not judged in modules.
    fn odd_trivia(&self, from: usize, to: usize) -> R<()> {
        let has = |p: &str| {
            let p: Vec<char> = p.chars().collect();
            self.text[from.min(to)..to].windows(p.len()).any(|w| w == &p[..])
        };
        if self.module && (has("<!--") || has("-->")) {
            return Err(Stop::Open("a comment in a module"));
        }
        Ok(())
    }
    /// The next token, a slash being a division if `op`.
    fn peek(&mut self, op: bool) -> R<&MTok> {
        if let Some(l) = self.look.take() {
            if l.op == op || self.text.get(l.tok.start) != Some(&'/') {
                self.look = Some(l);
            } else {
                self.m.pos = l.before.0;
                self.m.line_start = l.before.1;
                self.m.broken = l.before.2;
            }
        }
        if self.look.is_none() {
            self.look = Some(self.scan(op)?);
        }
        Ok(&self.look.as_ref().unwrap().tok)
    }
    /// The token after the next.
    fn second(&mut self) -> R<Option<Val>> {
        self.peek(false)?;
        let first = self.look.take();
        let at = (self.m.pos, self.m.line_start, self.m.broken);
        let r = self.m.next(true);
        self.odd_trivia(at.0, match r {
            Res::Tok(ref t) => t.start,
            _ => self.text.len(),
        })?;
        self.m.pos = at.0;
        self.m.line_start = at.1;
        self.m.broken = at.2;
        self.look = first;
        match r {
            Res::Tok(t) => Ok(Some(t.val)),
            Res::Err(_) => Ok(None),
            Res::Gray => Err(Stop::Open("a token is not judged")),
        }
    }
    fn take(&mut self, op: bool) -> R<MTok> {
        self.peek(op)?;
        let t = self.look.take().unwrap().tok;
        self.last = Some(t.start);
        Ok(t)
    }
    fn no<T>(&mut self, op: bool, what: &str) -> R<T> {
        let t = self.peek(op)?.clone();
        Err(Stop::No(No { why: format!("{:?} at offset {} where {} must stand", t.val, t.start, what), at: t.start, token: true, before: self.last, wanted: what.to_string(), offences: vec![], vague: false }))
    }
    fn is(&mut self, op: bool, p: &str) -> R<bool> {
        Ok(matches!(self.peek(op)?.val, Val::Punc(q) if q == p))
    }
    fn is_word(&mut self, op: bool, w: &str) -> R<bool> {
        Ok(matches!(&self.peek(op)?.val, Val::Reserved(x) if x == w))
    }
    /// A word that is not reserved but means something here.
    fn is_soft(&mut self, op: bool, w: &str) -> R<bool> {
        Ok(matches!(&self.peek(op)?.val, Val::Ident(x, true) if x == w))
    }
    fn eat(&mut self, op: bool, p: &str) -> R<bool> {
        if self.is(op, p)? {
            self.take(op)?;
            return Ok(true);
        }
        Ok(false)
    }
    fn eat_word(&mut self, op: bool, w: &str) -> R<bool> {
        if self.is_word(op, w)? {
            self.take(op)?;
            return Ok(true);
        }
        Ok(false)
    }
    fn need(&mut self, op: bool, p: &str) -> R<()> {
        if self.eat(op, p)? { Ok(()) } else { self.no(op, &format!("{:?}", p)) }
    }
    fn newline(&mut self, op: bool) -> R<bool> {
        match self.peek(op)?.newline {
            Some(n) => Ok(n),
            None => Err(Stop::Open("a line break is not judged")),
        }
    }
    fn ends(&mut self, op: bool) -> R<bool> {
        Ok(matches!(self.peek(op)?.val, Val::Punc("}") | Val::Eof))
    }
    fn semi(&mut self, optional: bool) -> R<()> {
        if self.eat(true, ";")? {
            self.semis.push(true);
            return Ok(());
        }
        if !(self.ends(true)? || optional || self.newline(true)?) {
            return self.no(true, "a semicolon");
        }
        self.semis.push(false);
        Ok(())
    }
    fn vague(&mut self, why: &'static str) {
        self.open = self.open.or(Some(why));
    }
    fn off(&mut self, kind: &'static str, name: &str) {
        self.bad.push(Off { kind, name: name.to_string() });
    }
    fn deeper<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.depth += 1;
        if self.depth > DEEPEST {
            return Err(Stop::Open("it is nested too deeply"));
        }
        let r = f(self);
        self.depth -= 1;
        r
    }

    // ------------------------------------------------------------- names

    fn name(&mut self, n: &str, u: Use) {
        match n {
            "eval" | "arguments" if self.strict => match u {
                Use::Bind => self.off("binding", n),
                Use::Target => self.vague("eval or arguments assigned to"),
                _ => {}
            },
            "await" if self.module => self.off("keyword", n),
            "let" if !matches!(u, Use::Bind | Use::Label) => self.vague("let as a name"),
            n if STRICT_WORDS.contains(&n) && self.strict => self.off("keyword", n),
            "yield" if self.gen => self.vague("yield in a generator"),
            _ => {}
        }
    }
    fn binding(&mut self, what: &str) -> R<String> {
        match self.peek(false)?.val.clone() {
            Val::Ident(n, _) => {
                self.take(false)?;
                self.name(&n, Use::Bind);
                Ok(n)
            }
            Val::Punc("{") | Val::Punc("[") if what != "a function's name" => self.no(false, PATTERN),
            _ => self.no(false, what),
        }
    }

    // -------------------------------------------------------- statements

    fn program(&mut self) -> R<String> {
        let s = self.body(true)?;
        match self.peek(false)?.val {
            Val::Eof => Ok(s),
            _ => self.no(false, "a statement"),
        }
    }
    fn body(&mut self, top: bool) -> R<String> {
        let mut v = vec![];
        let mut prologue = true;
        let mut odd = false;
        while !self.stops()? {
            if prologue && matches!(self.peek(false)?.val, Val::Str(_)) {
                let e = self.expression(true)?;
                match (&e.kind, e.par) {
                    (Kind::Str(raw), false) => {
                        odd |= octal(raw);
                        if raw == "use strict" {
                            if odd && !self.strict {
                                self.vague("an octal escape in a directive");
                            }
                            self.strict = true;
                        }
                        if raw == "use module" && top {
                            self.vague("use module");
                        }
                        self.semi(false)?;
                        v.push(list("dir", &[e.s]));
                    }
                    _ => {
                        self.semi(false)?;
                        v.push(list("expr", &[e.s]));
                        prologue = false;
                    }
                }
                continue;
            }
            prologue = false;
            if top && (self.is_word(false, "import")? || self.is_word(false, "export")?) {
                return self.no(false, ITEM);
            }
            v.push(self.stmt(true)?);
        }
        Ok(list("body", &v))
    }
    /// Where a list of statements ends.
    fn stops(&mut self) -> R<bool> {
        Ok(match &self.peek(false)?.val {
            Val::Punc("}") | Val::Eof => true,
            Val::Reserved(w) => matches!(&w[..], "case" | "default"),
            _ => false,
        })
    }
    fn items(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        while !self.stops()? {
            v.push(self.stmt(true)?);
        }
        Ok(v)
    }
    fn block(&mut self) -> R<String> {
        self.need(false, "{")?;
        let v = self.items()?;
        self.need(false, "}")?;
        Ok(list("block", &v))
    }
    fn head(&mut self) -> R<String> {
        self.need(false, "(")?;
        let e = self.expression(true)?;
        self.need(true, ")")?;
        Ok(e.s)
    }
    fn looped(&mut self) -> R<String> {
        let i = std::mem::replace(&mut self.iteration, true);
        let s = self.stmt(false)?;
        self.iteration = i;
        Ok(s)
    }
    fn stmt(&mut self, decl: bool) -> R<String> {
        self.deeper(|g| g.statement(decl))
    }
    fn statement(&mut self, decl: bool) -> R<String> {
        let t = self.peek(false)?.clone();
        let w = match &t.val {
            Val::Punc("{") => return self.block(),
            Val::Punc(";") => {
                self.take(false)?;
                return Ok("empty".to_string());
            }
            Val::Ident(n, soft) => {
                let next = self.second()?;
                if next == Some(Val::Punc(":")) {
                    return self.labelled();
                }
                if n == "let" && *soft {
                    match next {
                        Some(Val::Ident(..)) | Some(Val::Punc("{")) | Some(Val::Punc("[")) if decl => {
                            self.take(false)?;
                            let s = self.decls("let", true)?;
                            self.semi(false)?;
                            return Ok(s);
                        }
                        _ => return Err(Stop::Open("let as a name")),
                    }
                }
                return self.expression_statement();
            }
            Val::Reserved(w) => w.clone(),
            _ => return self.expression_statement(),
        };
        match &w[..] {
            "function" => {
                if !decl {
                    return self.no(false, "a statement");
                }
                self.take(false)?;
                let gen = self.eat(false, "*")?;
                let n = self.binding("a function's name")?;
                let f = self.function(gen, Some(&n))?;
                Ok(format!("(function {}{}", id(&n), f))
            }
            "const" => {
                if !decl {
                    return self.no(false, "a statement");
                }
                self.take(false)?;
                let s = self.decls("const", true)?;
                self.semi(false)?;
                Ok(s)
            }
            "var" => {
                self.take(false)?;
                let s = self.decls("var", true)?;
                self.semi(false)?;
                Ok(s)
            }
            "if" => {
                self.take(false)?;
                let e = self.head()?;
                let a = self.stmt(false)?;
                let b = if self.eat_word(false, "else")? { Some(self.stmt(false)?) } else { None };
                Ok(list("if", &[e, a, or_none(b)]))
            }
            "while" => {
                self.take(false)?;
                let e = self.head()?;
                let b = self.looped()?;
                Ok(list("while", &[e, b]))
            }
            "do" => {
                self.take(false)?;
                let b = self.looped()?;
                if !self.eat_word(false, "while")? {
                    return self.no(false, "while");
                }
                let e = self.head()?;
                self.semi(true)?;
                Ok(list("do", &[b, e]))
            }
            "with" => {
                self.take(false)?;
                if self.strict {
                    self.off("with", "");
                }
                let e = self.head()?;
                let b = self.stmt(false)?;
                Ok(list("with", &[e, b]))
            }
            "for" => self.for_loop(),
            "continue" | "break" => {
                self.take(false)?;
                let mut l = None;
                if self.argument()? {
                    match self.peek(false)?.val.clone() {
                        Val::Ident(n, _) => {
                            self.take(false)?;
                            self.name(&n, Use::Label);
                            match self.labels.iter().find(|x| x.0 == n) {
                                None => self.off("label", &n),
                                Some((_, false)) if w == "continue" => self.off("label type", &n),
                                _ => {}
                            }
                            l = Some(id(&n));
                        }
                        _ => return self.no(false, "a label"),
                    }
                } else if w == "break" && !self.iteration && !self.switch {
                    self.off("break", "");
                } else if w == "continue" && !self.iteration {
                    self.off("continue", "");
                }
                self.semi(false)?;
                Ok(list(&w, &[or_none(l)]))
            }
            "return" => {
                self.take(false)?;
                if !self.function {
                    self.off("return", "");
                }
                let e = if self.argument()? { Some(self.expression(true)?.s) } else { None };
                self.semi(false)?;
                Ok(list("return", &[or_none(e)]))
            }
            "throw" => {
                self.take(false)?;
                if !self.argument()? {
                    return self.no(false, "what is thrown");
                }
                let e = self.expression(true)?;
                self.semi(false)?;
                Ok(list("throw", &[e.s]))
            }
            "debugger" => {
                self.take(false)?;
                self.semi(false)?;
                Ok("debugger".to_string())
            }
            "switch" => {
                self.take(false)?;
                let mut v = vec![self.head()?];
                self.need(false, "{")?;
                let s = std::mem::replace(&mut self.switch, true);
                let mut defaults = 0;
                loop {
                    let mut c = vec![];
                    if self.eat_word(false, "case")? {
                        c.push(self.expression(true)?.s);
                        self.need(true, ":")?;
                    } else if self.eat_word(false, "default")? {
                        c.push(or_none(None));
                        defaults += 1;
                        if defaults == 2 {
                            self.off("default", "");
                        }
                        self.need(true, ":")?;
                    } else {
                        break;
                    }
                    c.extend(self.items()?);
                    v.push(list("case", &c));
                }
                self.switch = s;
                self.need(false, "}")?;
                Ok(list("switch", &v))
            }
            "try" => {
                self.take(false)?;
                let b = self.block()?;
                let mut c = vec![b];
                let caught = self.eat_word(false, "catch")?;
                if caught {
                    self.need(false, "(")?;
                    let n = self.binding("a name")?;
                    self.need(false, ")")?;
                    c.push(id(&n));
                    c.push(self.block()?);
                } else {
                    c.push(or_none(None));
                }
                if self.eat_word(false, "finally")? {
                    c.push(self.block()?);
                } else if caught {
                    c.push(or_none(None));
                } else {
                    return self.no(false, "catch or finally");
                }
                Ok(list("try", &c))
            }
            _ => self.expression_statement(),
        }
    }
    fn expression_statement(&mut self) -> R<String> {
        let e = self.expression(true)?;
        self.semi(false)?;
        Ok(list("expr", &[e.s]))
    }
    /// Does the next token belong to the jump before it?
    fn argument(&mut self) -> R<bool> {
        Ok(!(self.ends(false)? || self.is(false, ";")? || self.newline(false)?))
    }
    fn labelled(&mut self) -> R<String> {
        let mut names = vec![];
        loop {
            let n = match self.peek(false)?.val.clone() {
                Val::Ident(n, _) => n,
                _ => break,
            };
            if self.second()? != Some(Val::Punc(":")) {
                break;
            }
            self.take(false)?;
            self.need(true, ":")?;
            self.name(&n, Use::Label);
            if self.labels.iter().any(|l| l.0 == n) || names.contains(&n) {
                self.vague("a label inside itself");
            }
            names.push(n);
        }
        let looping = matches!(&self.peek(false)?.val, Val::Reserved(w) if matches!(&w[..], "for" | "while" | "do"));
        let k = self.labels.len();
        self.labels.extend(names.iter().map(|n| (n.clone(), looping)));
        let mut s = self.stmt(false)?;
        self.labels.truncate(k);
        for n in names.iter().rev() {
            s = list("label", &[id(n), s]);
        }
        Ok(s)
    }
    fn decls(&mut self, k: &str, allow_in: bool) -> R<String> {
        let mut v = vec![];
        loop {
            let n = self.binding("a name")?;
            v.push(self.decl(k, n, allow_in)?);
            if !self.eat(true, ",")? {
                return Ok(list(k, &v));
            }
        }
    }
    fn decl(&mut self, k: &str, n: String, allow_in: bool) -> R<String> {
        let e = if self.eat(true, "=")? {
            Some(self.assignment(allow_in)?.s)
        } else if k == "const" {
            return self.no(true, "a value");
        } else {
            None
        };
        Ok(list("d", &[id(&n), or_none(e)]))
    }
    fn for_loop(&mut self) -> R<String> {
        self.take(false)?;
        self.need(false, "(")?;
        let mut k = match &self.peek(false)?.val {
            Val::Reserved(w) if w == "var" => "var",
            Val::Reserved(w) if w == "const" => "const",
            Val::Ident(w, true) if w == "let" => "let",
            _ => "",
        };
        if k == "let" && !matches!(self.second()?, Some(Val::Ident(..)) | Some(Val::Punc("{")) | Some(Val::Punc("["))) {
            k = "";
        }
        if k != "" {
            self.take(false)?;
            let n = self.binding("a name")?;
            if self.is_word(true, "in")? || self.is_soft(true, "of")? {
                return self.enumeration(&[k.to_string(), id(&n)]);
            }
            let mut v = vec![];
            if k == "var" && self.eat(true, "=")? {
                let e = self.assignment(false)?;
                if self.is_word(true, "in")? {
                    if self.strict {
                        self.vague("an initialiser in a strict for-in");
                    }
                    return self.enumeration(&["init".to_string(), id(&n), e.s]);
                }
                v.push(list("d", &[id(&n), e.s]));
            } else {
                v.push(self.decl(k, n, false)?);
            }
            while self.eat(true, ",")? {
                let n = self.binding("a name")?;
                v.push(self.decl(k, n, false)?);
            }
            let h = list(k, &v);
            return self.counted(h);
        }
        if self.is(false, ";")? {
            return self.counted(or_none(None));
        }
        let e = self.expression(false)?;
        if self.is_word(true, "in")? || self.is_soft(true, "of")? {
            if self.is_soft(true, "of")? && matches!(&e.kind, Kind::Name(n) if n == "async") {
                self.vague("for (async of");
            }
            let p = self.pattern(e);
            return self.enumeration(&[p]);
        }
        self.counted(e.s)
    }
    fn counted(&mut self, h: String) -> R<String> {
        self.need(true, ";")?;
        let t = if self.is(false, ";")? { None } else { Some(self.expression(true)?.s) };
        self.need(true, ";")?;
        let u = if self.is(false, ")")? { None } else { Some(self.expression(true)?.s) };
        self.need(true, ")")?;
        let b = self.looped()?;
        Ok(list("for", &[h, or_none(t), or_none(u), b]))
    }
    fn enumeration(&mut self, left: &[String]) -> R<String> {
        let mut v = left.to_vec();
        let of = !self.eat_word(true, "in")?;
        if of {
            self.take(true)?;
            v.push(self.assignment(true)?.s);
        } else {
            v.push(self.expression(true)?.s);
        }
        self.need(true, ")")?;
        v.push(self.looped()?);
        Ok(list(if of { "for-of" } else { "for-in" }, &v))
    }

    // ---------------------------------------------------------- functions

    /// From the parameters on, without the opening bracket.
    fn function(&mut self, gen: bool, name: Option<&str>) -> R<String> {
        self.need(false, "(")?;
        let mut names: Vec<String> = name.iter().map(|n| n.to_string()).collect();
        let own = names.len();
        let mut v = vec![];
        let mut rest = false;
        loop {
            if self.is(false, ")")? {
                if !v.is_empty() {
                    self.vague("a comma after the last parameter");
                }
                break;
            }
            rest = self.eat(false, "...")?;
            let n = self.binding("a parameter")?;
            v.push(if rest { list("rest", &[id(&n)]) } else { id(&n) });
            if self.is(true, "=")? {
                return self.no(true, "no default value");
            }
            if names[own..].contains(&n) {
                self.vague("a parameter twice");
            }
            names.push(n);
            if rest || !self.eat(true, ",")? {
                break;
            }
        }
        self.need(true, ")")?;
        let b = self.code(&names, gen, rest)?;
        Ok(format!("{} {} {})", if gen { " *" } else { "" }, list("params", &v), b))
    }
    fn code(&mut self, names: &[String], gen: bool, rest: bool) -> R<String> {
        let outer = (self.strict, self.gen, self.function, self.iteration, self.switch);
        let labels = std::mem::take(&mut self.labels);
        self.gen = gen;
        self.function = true;
        self.iteration = false;
        self.switch = false;
        self.need(false, "{")?;
        let b = self.deeper(|g| g.body(false))?;
        self.need(false, "}")?;
        let odd = names.iter().any(|n| special(n));
        if gen && odd || self.strict && !outer.0 && (odd || rest) {
            self.vague("parameters the body concerns");
        }
        self.strict = outer.0;
        self.gen = outer.1;
        self.function = outer.2;
        self.iteration = outer.3;
        self.switch = outer.4;
        self.labels = labels;
        Ok(b)
    }

    // -------------------------------------------------------- expressions

    fn expression(&mut self, allow_in: bool) -> R<Ex> {
        let first = self.assignment(allow_in)?;
        if !self.is(true, ",")? {
            return Ok(first);
        }
        let mut v = vec![first.s];
        while self.eat(true, ",")? {
            v.push(self.assignment(allow_in)?.s);
        }
        Ok(other(list(",", &v)))
    }
    fn assignment(&mut self, allow_in: bool) -> R<Ex> {
        self.deeper(|g| g.assigning(allow_in))
    }
    fn assigning(&mut self, allow_in: bool) -> R<Ex> {
        let test = self.infix(allow_in, 1)?;
        if self.eat(true, "?")? {
            let a = self.assignment(true)?;
            self.need(true, ":")?;
            let b = self.assignment(allow_in)?;
            return Ok(other(list("?:", &[test.s, a.s, b.s])));
        }
        let op = match self.peek(true)?.val {
            Val::Punc(p) if assigns(p) => p,
            _ => return Ok(test),
        };
        self.take(true)?;
        let t = if op == "=" { self.pattern(test) } else { self.target(test) };
        let v = self.assignment(allow_in)?;
        Ok(Ex { s: list(op, &[t, v.s]), kind: Kind::Asg, par: false })
    }
    fn infix(&mut self, allow_in: bool, least: u8) -> R<Ex> {
        let mut left = self.unary()?;
        loop {
            let op = match &self.peek(true)?.val {
                Val::Punc(p) => p.to_string(),
                Val::Reserved(w) if w == "instanceof" || w == "in" && allow_in => w.clone(),
                _ => return Ok(left),
            };
            let l = match level(&op) {
                Some(l) if l >= least => l,
                _ => return Ok(left),
            };
            self.take(true)?;
            let right = self.deeper(|g| g.infix(allow_in, l + 1))?;
            left = other(list(&op, &[left.s, right.s]));
        }
    }
    fn unary(&mut self) -> R<Ex> {
        let op = match &self.peek(false)?.val {
            Val::Punc(p) if matches!(*p, "+" | "-" | "!" | "~" | "++" | "--") => p.to_string(),
            Val::Reserved(w) if matches!(&w[..], "typeof" | "void" | "delete") => w.clone(),
            _ => {
                let e = self.lhs()?;
                let t = self.peek(true)?;
                let op = match t.val {
                    Val::Punc("++") => "_++",
                    Val::Punc("--") => "_--",
                    _ => return Ok(e),
                };
                if self.newline(true)? {
                    return Ok(e);
                }
                self.take(true)?;
                let t = self.target(e);
                return Ok(other(list(op, &[t])));
            }
        };
        self.take(false)?;
        let e = self.deeper(|g| g.unary())?;
        if op == "++" || op == "--" {
            let t = self.target(e);
            return Ok(other(list(if op == "++" { "++_" } else { "--_" }, &[t])));
        }
        if op == "delete" && self.strict && matches!(e.kind, Kind::Name(_)) {
            self.vague("a name deleted");
        }
        Ok(other(list(&op, &[e.s])))
    }
    fn lhs(&mut self) -> R<Ex> {
        let (mut e, whole) = self.member()?;
        if !whole {
            return Ok(e);
        }
        loop {
            if self.is(true, "(")? {
                let mut v = vec![e.s];
                v.extend(self.args()?);
                e = other(list("call", &v));
            } else if !self.access(&mut e)? {
                return Ok(e);
            }
        }
    }
    /// `.name` or `[index]`
    fn access(&mut self, e: &mut Ex) -> R<bool> {
        let o = e.s.clone();
        if self.eat(true, ".")? {
            let n = match self.peek(false)?.val.clone() {
                Val::Ident(n, _) | Val::Reserved(n) => n,
                _ => return self.no(false, "a property's name"),
            };
            self.take(false)?;
            *e = Ex { s: list(".", &[o, id(&n)]), kind: Kind::Member, par: false };
            return Ok(true);
        }
        if self.eat(true, "[")? {
            let i = self.expression(true)?;
            self.need(true, "]")?;
            *e = Ex { s: list("@", &[o, i.s]), kind: Kind::Member, par: false };
            return Ok(true);
        }
        Ok(false)
    }
    /// A member expression, or (false) a `new` without arguments.
    fn member(&mut self) -> R<(Ex, bool)> {
        let mut e = if self.eat_word(false, "new")? {
            if self.eat(true, ".")? {
                if !self.is_soft(false, "target")? {
                    return self.no(false, "target");
                }
                self.take(false)?;
                if !self.function {
                    self.vague("new.target outside functions");
                }
                other("new.target".to_string())
            } else {
                let (c, whole) = self.deeper(|g| g.member())?;
                if !whole || !self.is(true, "(")? {
                    return Ok((other(list("new-", &[c.s])), false));
                }
                let mut v = vec![c.s];
                v.extend(self.args()?);
                other(list("new", &v))
            }
        } else {
            self.primary()?
        };
        while self.access(&mut e)? {}
        Ok((e, true))
    }
    fn args(&mut self) -> R<Vec<String>> {
        self.need(true, "(")?;
        let mut v = vec![];
        if self.eat(false, ")")? {
            return Ok(v);
        }
        loop {
            let spread = self.eat(false, "...")?;
            let e = self.assignment(true)?;
            v.push(if spread { list("...", &[e.s]) } else { e.s });
            if !self.eat(true, ",")? {
                break;
            }
            if self.is(false, ")")? {
                return Err(Stop::Open("a comma after the last argument"));
            }
        }
        self.need(true, ")")?;
        Ok(v)
    }
    fn primary(&mut self) -> R<Ex> {
        let t = self.peek(false)?.clone();
        let plain = |s: &str| Ok(other(s.to_string()));
        match &t.val {
            Val::Ident(n, _) => {
                self.take(false)?;
                self.name(n, Use::Ref);
                Ok(Ex { s: id(n), kind: Kind::Name(n.clone()), par: false })
            }
            Val::Num(_) | Val::Str(_) | Val::RegExp(..) => {
                self.take(false)?;
                self.literal(&t)
            }
            Val::Reserved(w) => match &w[..] {
                "this" | "null" | "true" | "false" => {
                    self.take(false)?;
                    plain(w)
                }
                "function" => {
                    self.take(false)?;
                    let gen = self.eat(false, "*")?;
                    let n = match self.peek(false)?.val.clone() {
                        Val::Ident(..) => Some(self.binding("a name")?),
                        _ => None,
                    };
                    let f = self.function(gen, n.as_ref().map(|n| &n[..]))?;
                    Ok(other(format!("(function {}{}", or_none(n.map(|n| id(&n))), f)))
                }
                _ => self.no(false, "an expression"),
            },
            Val::Punc("(") => {
                self.take(false)?;
                let mut e = self.expression(true)?;
                self.need(true, ")")?;
                e.par = true;
                Ok(e)
            }
            Val::Punc("[") => {
                self.take(false)?;
                self.array()
            }
            Val::Punc("{") => {
                self.take(false)?;
                self.object()
            }
            _ => self.no(false, "an expression"),
        }
    }
    fn literal(&mut self, t: &MTok) -> R<Ex> {
        let raw: String = self.text[t.start..t.end].iter().collect();
        let mut kind = Kind::Other;
        let s = match &t.val {
            Val::Num(v) => {
                let mut c = raw.chars();
                if self.strict && c.next() == Some('0') && c.next().map_or(false, |c| c.is_ascii_digit()) {
                    self.vague("an octal number in strict code");
                }
                self.exact &= v.is_some();
                format!("n:{:x}", v.unwrap_or(0.0).to_bits())
            }
            Val::Str(v) => {
                let inner: String = raw.chars().skip(1).take(t.end - t.start - 2).collect();
                if self.strict && octal(&inner) {
                    self.vague("an octal escape in strict code");
                }
                kind = Kind::Str(inner);
                self.exact &= v.is_some();
                format!("{:?}", v.as_ref().map_or("", |v| &v[..]))
            }
            Val::RegExp(p, f) => format!("/{:?}/{}", p, f),
            _ => unreachable!(),
        };
        Ok(Ex { s, kind, par: false })
    }
    fn array(&mut self) -> R<Ex> {
        let mut v: Vec<Option<(bool, Ex)>> = vec![];
        let mut closing = false;
        loop {
            if self.is(false, "]")? {
                closing = !v.is_empty();
                break;
            }
            if self.is(false, ",")? {
                v.push(None);
            } else {
                let spread = self.eat(false, "...")?;
                v.push(Some((spread, self.assignment(true)?)));
            }
            if !self.eat(true, ",")? {
                break;
            }
        }
        self.need(true, "]")?;
        let s: Vec<String> = v
            .iter()
            .map(|e| match e {
                None => or_none(None),
                Some((true, e)) => list("...", std::slice::from_ref(&e.s)),
                Some((false, e)) => e.s.clone(),
            })
            .collect();
        Ok(Ex { s: list("array", &s), kind: Kind::Arr(v, closing), par: false })
    }
    fn key(&mut self) -> R<Option<(String, Option<String>)>> {
        let t = self.peek(false)?.clone();
        let k = match &t.val {
            Val::Ident(n, _) => (id(n), Some(n.clone())),
            Val::Reserved(n) => (id(n), None),
            Val::Str(_) | Val::Num(_) => {
                self.take(false)?;
                return Ok(Some((self.literal(&t)?.s, None)));
            }
            _ => return Ok(None),
        };
        self.take(false)?;
        Ok(Some(k))
    }
    fn object(&mut self) -> R<Ex> {
        let mut v = vec![];
        let mut s = vec![];
        while !self.is(false, "}")? {
            let (p, x) = self.property()?;
            v.push(p);
            s.push(x);
            if !self.eat(true, ",")? {
                break;
            }
        }
        self.need(true, "}")?;
        Ok(Ex { s: list("object", &s), kind: Kind::Obj(v), par: false })
    }
    fn property(&mut self) -> R<(Pr, String)> {
        if self.eat(false, "*")? {
            let k = match self.key()? {
                Some(k) => k.0,
                None => return self.no(false, "a key"),
            };
            let f = self.function(true, None)?;
            return Ok((Pr::Code, format!("(method {}{}", k, f)));
        }
        let accessor = self.is_soft(false, "get")? || self.is_soft(false, "set")?;
        let (k, name) = match self.key()? {
            Some(k) => k,
            None => return self.no(false, "a key"),
        };
        if accessor {
            if let Some((key, _)) = self.key()? {
                let get = name.as_ref().map_or(false, |n| n == "get");
                self.need(false, "(")?;
                let mut names = vec![];
                if !get {
                    if self.is(false, "...")? {
                        return self.no(false, "a parameter");
                    }
                    names.push(self.binding("a parameter")?);
                    if self.is(true, "=")? {
                        return self.no(true, "no default value");
                    }
                }
                self.need(true, ")")?;
                let b = self.code(&names, false, false)?;
                let s = if get { list("get", &[key, b]) } else { list("set", &[key, id(&names[0]), b]) };
                return Ok((Pr::Code, s));
            }
        }
        match self.peek(true)?.val {
            Val::Punc(":") => {
                self.take(true)?;
                let e = self.assignment(true)?;
                let s = list(":", &[k.clone(), e.s.clone()]);
                Ok((Pr::Init(k, e), s))
            }
            Val::Punc("(") => {
                let f = self.function(false, None)?;
                Ok((Pr::Code, format!("(method {}{}", k, f)))
            }
            Val::Punc(",") | Val::Punc("}") => match name {
                Some(n) => {
                    self.name(&n, Use::Ref);
                    let s = id(&n);
                    Ok((Pr::Short(n), s))
                }
                None => self.no(true, "a value"),
            },
            _ => self.no(true, "a value"),
        }
    }

    // -------------------------------------------------------- assignments

    /// What is assigned to, where it must be a reference.
    fn target(&mut self, e: Ex) -> String {
        match &e.kind {
            Kind::Name(n) => self.name(&n.clone(), Use::Target),
            Kind::Member => {}
            _ => self.off("target", ""),
        }
        e.s
    }
    /// What is assigned to, where it may be a pattern.
    fn pattern(&mut self, e: Ex) -> String {
        if e.par && matches!(e.kind, Kind::Arr(..) | Kind::Obj(_) | Kind::Asg) {
            self.vague("a pattern in parentheses");
        }
        match e.kind {
            Kind::Arr(v, closing) => {
                let n = v.len();
                if closing && matches!(v.last(), Some(Some((true, _)))) {
                    self.vague("a comma after the rest of a pattern");
                }
                let mut s = vec![];
                for (i, e) in v.into_iter().enumerate() {
                    s.push(match e {
                        None => or_none(None),
                        Some((spread, e)) => {
                            if spread && i + 1 < n {
                                self.off("target", "");
                            }
                            let p = self.element(e);
                            if spread { list("rest", &[p]) } else { p }
                        }
                    });
                }
                list("[]", &s)
            }
            Kind::Obj(v) => {
                let mut s = vec![];
                for p in v {
                    s.push(match p {
                        Pr::Init(k, e) => {
                            let p = self.element(e);
                            list(":", &[k, p])
                        }
                        Pr::Short(n) => {
                            self.name(&n, Use::Target);
                            id(&n)
                        }
                        Pr::Code => {
                            self.off("target", "");
                            "?".to_string()
                        }
                    });
                }
                list("{}", &s)
            }
            _ => self.target(e),
        }
    }
    fn element(&mut self, e: Ex) -> String {
        if let Kind::Asg = e.kind {
            self.vague("a default in a pattern");
        }
        self.pattern(e)
    }
}
