//! One lexer, its character source with scripted faults, and its client.
use crate::model::{self, Model, Res, Val};
use joker::lexer::Lexer;
use joker::token::{Token, TokenData};
use joker::track::Posn;
use serde::{Deserialize, Serialize};
use simcore::coop::Coop;
use simcore::panics::{self, Caught, SimPanic};
use simcore::rng::Fold;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Seg {
    /// Literal text.
    S(String),
    /// Text repeated.
    R(String, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    /// The source ends for good at this character.
    Eof { at: usize },
    /// The source reports its end here, and would resume after n more polls.
    Stall { at: usize, n: u32 },
    /// The source unwinds once when asked for this character.
    Panic { at: usize },
    /// The source unwinds if polled after it reported its end.
    PanicAfterEnd,
    /// Corruption of the stream, applied in order before the run.
    Flip { at: usize, to: char },
    Drop { at: usize },
    Dup { at: usize },
    Swap { at: usize },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Goal {
    /// Operand position: a slash starts a regular expression.
    Rand,
    /// Operator position.
    Oper,
    /// As a parser would guess from the last scanned token.
    Auto,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Read(Goal),
    Peek(Goal),
    Skip(Goal),
    Unread,
    Reread,
    Repeek,
    Posn,
    /// Read until the end of input or an error (at most n tokens).
    Drain(Goal, u32),
    /// Drop the lexer; start another on what is left of the source.
    Cancel,
    /// Make the next call from another thread.
    Migrate,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Actor {
    pub text: Vec<Seg>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    pub ops: Vec<Op>,
    /// Measure heap growth around each call.
    #[serde(default)]
    pub mem: bool,
}

pub fn expand(segs: &[Seg]) -> Vec<char> {
    let mut v = vec![];
    for s in segs {
        match s {
            Seg::S(s) => v.extend(s.chars()),
            Seg::R(s, n) => {
                for _ in 0..*n {
                    v.extend(s.chars());
                }
            }
        }
    }
    v
}

/// The text after corruption, the index it is first cut at, and what remains.
pub struct Plan {
    pub text: Vec<char>,
    /// Everything delivered before the source first reports its end.
    pub delivered: usize,
    pub corrupted: u64,
}

impl Actor {
    pub fn plan(&self) -> Plan {
        let mut t = expand(&self.text);
        let mut corrupted = 0;
        for f in &self.faults {
            let n = t.len();
            match *f {
                Fault::Flip { at, to } if at < n => t[at] = to,
                Fault::Drop { at } if at < n => {
                    t.remove(at);
                }
                Fault::Dup { at } if at < n => {
                    let c = t[at];
                    t.insert(at, c);
                }
                Fault::Swap { at } if at + 1 < n => t.swap(at, at + 1),
                _ => continue,
            }
            corrupted += 1;
        }
        let mut delivered = t.len();
        for f in &self.faults {
            match *f {
                Fault::Eof { at } | Fault::Stall { at, .. } => delivered = delivered.min(at),
                _ => {}
            }
        }
        Plan { text: t, delivered, corrupted }
    }
}

/// Who gets to run when a source is polled.
pub enum Hook {
    None,
    Nested(Rc<dyn Fn(usize)>),
    Coop(Arc<Coop>),
}

pub struct SrcState {
    pub text: Vec<char>,
    pub pulled: Cell<usize>,
    pub polls: Cell<u64>,
    pub ended: Cell<bool>,
    pub polls_after_end: Cell<u64>,
    stalls: RefCell<Vec<(usize, u32)>>,
    eof_at: usize,
    panics: RefCell<BTreeSet<usize>>,
    panic_after_end: bool,
    pub fired_stall: Cell<u64>,
    pub fired_eof: Cell<u64>,
    pub fired_panic: Cell<u64>,
    pub fired_after_end: Cell<u64>,
    me: usize,
    hook: Hook,
}

#[derive(Clone)]
pub struct Src(Rc<SrcState>);
// A lexer moves to another thread only while the thread that owns everything
// else is blocked waiting for it.
unsafe impl Send for Src {}

impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let s = &*self.0;
        match s.hook {
            Hook::None => {}
            Hook::Nested(ref f) => f(s.me),
            Hook::Coop(ref c) => c.yield_now(s.me),
        }
        s.polls.set(s.polls.get() + 1);
        let i = s.pulled.get();
        if s.ended.get() {
            s.polls_after_end.set(s.polls_after_end.get() + 1);
            if s.panic_after_end {
                s.fired_after_end.set(s.fired_after_end.get() + 1);
                panics::inject(1 << 40);
            }
        }
        if s.panics.borrow_mut().remove(&i) {
            s.fired_panic.set(s.fired_panic.get() + 1);
            panics::inject(i as u64);
        }
        {
            let mut st = s.stalls.borrow_mut();
            if let Some(k) = st.iter().position(|x| x.0 == i && x.1 > 0) {
                st[k].1 -= 1;
                s.ended.set(true);
                s.fired_stall.set(s.fired_stall.get() + 1);
                return None;
            }
        }
        if i >= s.eof_at || i >= s.text.len() {
            if i < s.text.len() {
                s.fired_eof.set(s.fired_eof.get() + 1);
            }
            s.ended.set(true);
            return None;
        }
        s.pulled.set(i + 1);
        Some(s.text[i])
    }
}

/// What a client saw from one call.
#[derive(Clone, Debug)]
pub enum Seen {
    Tok(Token),
    Skipped,
    Err(joker::error::Error),
    Posn(Posn),
    Failed(u64),
    Done,
}

pub fn same_seen(a: &Seen, b: &Seen) -> bool {
    match (a, b) {
        (Seen::Tok(x), Seen::Tok(y)) => model::same_token(x, y),
        (Seen::Skipped, Seen::Skipped) | (Seen::Done, Seen::Done) => true,
        (Seen::Err(x), Seen::Err(y)) => x == y,
        (Seen::Posn(x), Seen::Posn(y)) => x == y,
        (Seen::Failed(x), Seen::Failed(y)) => x == y,
        _ => false,
    }
}

pub fn show_seen(s: &Seen) -> String {
    match s {
        Seen::Tok(t) => format!(
            "{} {}..{} line {} col {}{}",
            model::show(t),
            t.location.start.offset,
            t.location.end.offset,
            t.location.start.line,
            t.location.start.column,
            if t.newline { " after newline" } else { "" }
        ),
        Seen::Err(e) => format!("error {:?}", e),
        Seen::Posn(p) => format!("position {} ({}:{})", p.offset, p.line, p.column),
        Seen::Failed(n) => format!("source failure {} propagated", n),
        s => format!("{:?}", s),
    }
}

fn hash_seen(f: &mut Fold, s: &Seen) {
    match s {
        Seen::Tok(t) => {
            f.add(1);
            f.str(&format!("{:?}", t.value));
            for p in [t.location.start, t.location.end] {
                f.add(p.offset as u64);
                f.add((p.line as u64) << 32 | p.column as u64);
            }
            f.add(t.newline as u64);
        }
        Seen::Skipped => f.add(2),
        Seen::Err(e) => {
            f.add(3);
            f.str(&format!("{:?}", e));
        }
        Seen::Posn(p) => {
            f.add(4);
            f.add(p.offset as u64);
            f.add((p.line as u64) << 32 | p.column as u64);
        }
        Seen::Failed(n) => {
            f.add(5);
            f.add(*n);
        }
        Seen::Done => f.add(6),
    }
}

pub fn kind(v: &TokenData) -> u64 {
    match *v {
        TokenData::Reserved(_) => 1,
        TokenData::Number(_) => 2,
        TokenData::String(_) => 3,
        TokenData::RegExp(_) => 4,
        TokenData::Identifier(_) => 5,
        TokenData::EOF => 6,
        TokenData::RParen | TokenData::RBrack | TokenData::RBrace => 7,
        TokenData::Slash | TokenData::SlashAssign => 8,
        _ => 9,
    }
}

/// One scan of the source (as opposed to a call answered from the buffer).
pub struct Scan {
    pub operator: bool,
    pub seen: Seen,
    /// Characters pulled, and whether the end was seen, when it returned.
    pub pulled: usize,
    pub ended: bool,
    /// The lexer (after cancellations there are several) it was made by.
    pub lexer: usize,
}

pub struct Run {
    pub me: usize,
    lex: Option<Lexer<Src>>,
    pub src: Rc<SrcState>,
    /// Text delivered before the first end, from the current lexer's start.
    text: Vec<char>,
    at: Vec<(u32, u32)>,
    model: ModelState,
    start_pulled: usize,
    pub lexer_no: usize,
    mirror: VecDeque<Token>,
    history: Vec<Token>,
    posn: Posn,
    last_kind: u64,
    failed_once: bool,
    eof_at: Option<Posn>,
    migrate: bool,
    mem: bool,
    pub scans: Vec<Scan>,
    pub seen: Vec<Seen>,
    ops: Vec<Op>,
    next_op: usize,
    drain_left: Option<(Goal, u32)>,
    final_drain: Option<usize>,
    pub bad: Option<(String, String)>,
    pub log: Fold,
    pub inter: Fold,
    pub states: Vec<u64>,
    pub counters: Vec<(&'static str, u64)>,
    pub steps: u64,
    tokens: u64,
    /// When set, an account of every call is kept.
    pub trace: Option<Vec<String>>,
}

struct ModelState {
    pos: usize,
    line_start: Option<bool>,
    broken: Option<bool>,
}

enum Called<T> {
    Ok(T),
    Failed(u64),
    Bad,
}

impl Run {
    pub fn new(a: &Actor, me: usize, hook: Hook) -> Run {
        let plan = a.plan();
        let delivered = plan.delivered.min(plan.text.len());
        let text: Vec<char> = plan.text[..delivered].to_vec();
        let mut stalls = vec![];
        let mut eof_at = usize::MAX;
        let mut pan = BTreeSet::new();
        let mut pae = false;
        for f in &a.faults {
            match *f {
                Fault::Eof { at } => eof_at = eof_at.min(at),
                Fault::Stall { at, n } => stalls.push((at, n)),
                Fault::Panic { at } => {
                    pan.insert(at);
                }
                Fault::PanicAfterEnd => pae = true,
                _ => {}
            }
        }
        let src = Rc::new(SrcState {
            text: plan.text,
            pulled: Cell::new(0),
            polls: Cell::new(0),
            ended: Cell::new(false),
            polls_after_end: Cell::new(0),
            stalls: RefCell::new(stalls),
            eof_at,
            panics: RefCell::new(pan),
            panic_after_end: pae,
            fired_stall: Cell::new(0),
            fired_eof: Cell::new(0),
            fired_panic: Cell::new(0),
            fired_after_end: Cell::new(0),
            me,
            hook,
        });
        let mut r = Run {
            me,
            lex: None,
            src,
            at: vec![],
            text,
            model: ModelState { pos: 0, line_start: Some(true), broken: Some(false) },
            start_pulled: 0,
            lexer_no: 0,
            mirror: VecDeque::new(),
            history: vec![],
            posn: Posn::origin(),
            last_kind: 0,
            failed_once: false,
            eof_at: None,
            migrate: false,
            mem: a.mem,
            scans: vec![],
            seen: vec![],
            ops: a.ops.clone(),
            next_op: 0,
            drain_left: None,
            final_drain: None,
            bad: None,
            log: Fold::new(),
            inter: Fold::new(),
            states: vec![],
            counters: vec![],
            steps: 0,
            tokens: 0,
            trace: None,
        };
        if plan.corrupted > 0 {
            r.count("fault:corrupted character", plan.corrupted);
        }
        r.start_lexer();
        r
    }

    pub fn count(&mut self, k: &'static str, n: u64) {
        self.counters.push((k, n));
    }
    fn fail(&mut self, class: &str, msg: String) {
        if self.bad.is_none() {
            let n = self.seen.len();
            self.bad = Some((class.to_string(), format!("lexer {}, call {}: {}", self.me, n, msg)));
        }
    }

    fn start_lexer(&mut self) {
        let polls = self.src.polls.get();
        self.at = model::positions(&self.text);
        self.model = ModelState { pos: 0, line_start: Some(true), broken: Some(false) };
        self.start_pulled = self.src.pulled.get();
        self.mirror.clear();
        self.history.clear();
        self.posn = Posn::origin();
        self.failed_once = false;
        self.eof_at = None;
        let src = Src(self.src.clone());
        match self.guard(move |_| Lexer::new(src), true) {
            Called::Ok(l) => self.lex = Some(l),
            _ => return,
        }
        if self.src.polls.get() != polls {
            self.fail("buffered-pull", format!("creating a lexer polled the source {} times", self.src.polls.get() - polls));
        }
        let p = self.lex.as_ref().unwrap().posn();
        if p != Posn::origin() {
            self.fail("posn", format!("a new lexer reports position {:?}", p));
        }
    }

    /// Run a library call, separating injected failures from its own panics.
    fn guard<T: Send>(&mut self, f: impl FnOnce(Option<&mut Lexer<Src>>) -> T, _new: bool) -> Called<T> {
        struct Ship<X>(X);
        unsafe impl<X> Send for Ship<X> {}
        let mut lex = self.lex.take();
        let r = if self.migrate {
            self.migrate = false;
            self.counters.push(("calls from another thread", 1));
            let pack = Ship((f, &mut lex));
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .spawn_scoped(s, move || {
                        let pack = pack;
                        let Ship((f, lex)) = pack;
                        Ship(panics::catch(move || f(lex.as_mut())))
                    })
                    .unwrap()
                    .join()
                    .unwrap()
                    .0
            })
        } else {
            panics::catch(|| f(lex.as_mut()))
        };
        self.lex = lex;
        match r {
            Ok(v) => Called::Ok(v),
            Err(Caught::Injected(SimPanic(id))) => Called::Failed(id),
            Err(Caught::Foreign(m)) => {
                self.fail("panic", format!("the library panicked: {}", m));
                Called::Bad
            }
        }
    }

    fn operator(&self, g: Goal) -> bool {
        match g {
            Goal::Rand => false,
            Goal::Oper => true,
            Goal::Auto => matches!(self.last_kind, 2 | 3 | 4 | 5 | 7),
        }
    }

    pub fn finished(&self) -> bool {
        self.bad.is_some() || (self.next_op >= self.ops.len() && self.drain_left.is_none() && self.final_drain == Some(0))
    }

    /// Perform the next client call. After the scripted ones, the source is
    /// drained so that nothing stays unexamined.
    pub fn step(&mut self) {
        if self.finished() {
            return;
        }
        self.steps += 1;
        let polls = self.src.polls.get();
        if let Some((g, n)) = self.drain_left {
            self.drain_left = if n <= 1 { None } else { Some((g, n - 1)) };
            let stop = self.do_read(g, 0);
            if stop {
                self.drain_left = None;
            }
        } else if self.next_op < self.ops.len() {
            let op = self.ops[self.next_op].clone();
            self.next_op += 1;
            self.perform(op);
        } else {
            // Every successful token advances, so this many calls must do.
            let left = self.final_drain.unwrap_or(self.text.len() + 8);
            if left == 0 {
                return;
            }
            let stop = self.do_read(Goal::Auto, 0);
            if stop {
                self.final_drain = Some(0);
            } else if left == 1 {
                self.fail("no-progress", format!("{} successful reads over {} characters did not reach the end", self.text.len() + 8, self.text.len()));
            } else {
                self.final_drain = Some(left - 1);
            }
        }
        self.steps += self.src.polls.get() - polls;
    }

    fn perform(&mut self, op: Op) {
        match op {
            Op::Read(g) => {
                self.do_read(g, 0);
            }
            Op::Skip(g) => {
                self.do_read(g, 1);
            }
            Op::Peek(g) => {
                self.do_read(g, 2);
            }
            Op::Drain(g, n) => self.drain_left = Some((g, n)),
            Op::Unread => {
                if self.mirror.len() < 2 {
                    if let Some(t) = self.history.pop() {
                        self.mirror.push_front(t.clone());
                        let n = self.mirror.len();
                        self.buffered("unread", move |l| {
                            l.unread_token(t);
                            Seen::Done
                        });
                        self.count("tokens put back", 1);
                        if n == 2 {
                            self.count("two tokens buffered", 1);
                        }
                    }
                }
            }
            Op::Reread => {
                if !self.mirror.is_empty() {
                    if let Some(Seen::Tok(t)) = self.buffered("reread", |l| Seen::Tok(l.reread_token())) {
                        let want = self.mirror.pop_front().unwrap();
                        self.same("reread", &t, &want);
                        self.history.push(want);
                    }
                }
            }
            Op::Repeek => {
                if !self.mirror.is_empty() {
                    if let Some(Seen::Tok(t)) = self.buffered("repeek", |l| Seen::Tok(l.repeek_token().clone())) {
                        let want = self.mirror[0].clone();
                        self.same("repeek", &t, &want);
                    }
                }
            }
            Op::Posn => {
                self.buffered("posn", |l| Seen::Posn(l.posn()));
            }
            Op::Migrate => self.migrate = true,
            Op::Cancel => {
                let before = self.src.polls.get();
                let l = self.lex.take();
                if let Err(c) = panics::catch(move || drop(l)) {
                    let m = match c {
                        Caught::Injected(_) => "polled the source into a failure".to_string(),
                        Caught::Foreign(m) => m,
                    };
                    self.fail("panic", format!("dropping the lexer: {}", m));
                    return;
                }
                if self.src.polls.get() != before {
                    self.fail("buffered-pull", "dropping a lexer polled the source".into());
                    return;
                }
                self.count("lexers dropped midway", 1);
                if self.src.ended.get() {
                    // Nothing is left to resume from.
                    self.text.clear();
                    self.next_op = self.ops.len();
                    self.drain_left = None;
                    self.final_drain = Some(0);
                    return;
                }
                let used = self.src.pulled.get() - self.start_pulled;
                self.text.drain(..used.min(self.text.len()));
                self.lexer_no += 1;
                self.last_kind = 0;
                self.seen.push(Seen::Done);
                self.start_lexer();
            }
        }
    }

    fn same(&mut self, what: &str, got: &Token, want: &Token) {
        if !model::same_token(got, want) {
            self.fail("identity", format!("{} gave {} but the buffered token is {}", what, show_seen(&Seen::Tok(got.clone())), show_seen(&Seen::Tok(want.clone()))));
        }
    }

    fn record(&mut self, what: &str, s: Seen) {
        if self.trace.is_some() {
            let l = format!("lexer {}.{} {} -> {} [{} pulled, {} buffered]", self.me, self.lexer_no, what, show_seen(&s), self.src.pulled.get(), self.mirror.len());
            self.trace.as_mut().unwrap().push(l);
        }
        hash_seen(&mut self.log, &s);
        let k = match &s {
            Seen::Tok(t) => kind(&t.value),
            Seen::Skipped => 20,
            Seen::Err(_) => 21,
            Seen::Posn(_) => 22,
            Seen::Failed(_) => 23,
            Seen::Done => 24,
        };
        self.inter.add(k | (self.mirror.len() as u64) << 8 | (self.src.ended.get() as u64) << 16 | (self.lexer_no as u64) << 24);
        let mut st = Fold::new();
        st.add(k);
        st.add(self.mirror.iter().fold(0, |a, t| a * 16 + kind(&t.value)));
        st.add(self.last_kind);
        st.add(self.src.ended.get() as u64 | (self.failed_once as u64) << 1 | ((self.posn.column == 0) as u64) << 2 | ((self.posn.line == 0) as u64) << 3);
        st.add((self.src.pulled.get() - self.start_pulled).saturating_sub(self.posn.offset as usize) as u64);
        self.states.push(st.0);
        self.seen.push(s);
    }

    /// A call that must be answered without touching the source.
    fn buffered(&mut self, what: &str, f: impl FnOnce(&mut Lexer<Src>) -> Seen) -> Option<Seen> {
        let polls = self.src.polls.get();
        struct S(Seen);
        unsafe impl Send for S {}
        let r = match self.guard(|l| S(f(l.unwrap())), false) {
            Called::Ok(s) => Some(s.0),
            Called::Failed(n) => {
                self.fail("buffered-pull", format!("{} polled the source into failure {}", what, n));
                None
            }
            Called::Bad => None,
        };
        if let Some(ref s) = r {
            self.record(what, s.clone());
        }
        if self.src.polls.get() != polls {
            self.fail("buffered-pull", format!("{} polled the source {} times", what, self.src.polls.get() - polls));
        }
        self.check_posn(what);
        r
    }

    /// The position must still be where the furthest scan left it.
    fn check_posn(&mut self, what: &str) {
        if self.bad.is_some() {
            return;
        }
        if let Some(l) = self.lex.as_ref() {
            let p = l.posn();
            if p != self.posn {
                let want = self.posn;
                self.fail("posn", format!("after {} the position is offset {} ({}:{}), should be {} ({}:{})", what, p.offset, p.line, p.column, want.offset, want.line, want.column));
            }
        }
    }

    /// mode 0: read, 1: skip, 2: peek. True: at the end, or failed.
    fn do_read(&mut self, g: Goal, mode: u8) -> bool {
        let what = ["read", "skip", "peek"][mode as usize];
        let operator = self.operator(g);
        if !self.mirror.is_empty() {
            let want = self.mirror[0].clone();
            let is_eof = want.value == TokenData::EOF;
            let r = self.buffered(what, |l| match mode {
                0 => l.read_token(operator).map_or_else(Seen::Err, Seen::Tok),
                1 => l.skip_token(operator).map_or_else(Seen::Err, |_| Seen::Skipped),
                _ => l.peek_token(operator).map(|t| t.clone()).map_or_else(Seen::Err, Seen::Tok),
            });
            match r {
                Some(Seen::Tok(t)) => self.same(what, &t, &want),
                Some(Seen::Skipped) => {}
                Some(s) => self.fail("identity", format!("{} with a buffered token gave {}", what, show_seen(&s))),
                None => return true,
            }
            if mode != 2 {
                self.mirror.pop_front();
            }
            if mode == 0 {
                self.history.push(want);
            } else if mode == 1 {
                self.history.clear();
            }
            return is_eof;
        }

        let polls = self.src.polls.get();
        let after_end = self.src.polls_after_end.get();
        let ended_before = self.src.ended.get();
        let heap = if self.mem { simcore::alloc::reset_peak() } else { 0 };
        let churn = simcore::alloc::total();
        struct S(Seen);
        unsafe impl Send for S {}
        let r = self.guard(
            |l| {
                let l = l.unwrap();
                S(match mode {
                    0 => l.read_token(operator).map_or_else(Seen::Err, Seen::Tok),
                    1 => l.skip_token(operator).map_or_else(Seen::Err, |_| Seen::Skipped),
                    _ => l.peek_token(operator).map(|t| t.clone()).map_or_else(Seen::Err, Seen::Tok),
                })
            },
            false,
        );
        let peak = if self.mem { simcore::alloc::peak().saturating_sub(heap) } else { 0 };
        let churn = if self.mem { simcore::alloc::total() - churn } else { 0 };
        let seen = match r {
            Called::Ok(s) => s.0,
            Called::Failed(n) => Seen::Failed(n),
            Called::Bad => return true,
        };
        let polled = (self.src.polls.get() - polls) as usize;
        let before = self.posn;
        let now = match self.lex.as_ref() {
            Some(l) => l.posn(),
            None => return true,
        };
        let pulled = self.src.pulled.get() - self.start_pulled;
        self.tokens += 1;

        // Positions never move backwards and never pass what was delivered.
        if now.offset < before.offset {
            self.fail("posn", format!("{} moved the position back from {} to {}", what, before.offset, now.offset));
        }
        if now.offset as usize > pulled {
            self.fail("posn", format!("after {} the position is {} but only {} characters were delivered", what, now.offset, pulled));
            return true;
        }
        if pulled > now.offset as usize + 4 {
            self.fail("readahead", format!("{} left the position at {} but pulled {} characters", what, now.offset, pulled));
        }
        let moved = (now.offset.max(before.offset) - before.offset) as usize;
        if polled > moved + 6 {
            self.fail("overwork", format!("{} polled the source {} times to advance {} characters", what, polled, moved));
        }
        if self.src.polls_after_end.get() != after_end {
            self.fail("eof-poll", format!("{} polled the source again after it had ended", what));
        }

        self.judge(what, operator, &seen, now, pulled);

        if self.mem && self.bad.is_none() {
            // What the call may keep or use at once: proportional to the token it returned.
            let span = match &seen {
                Seen::Tok(t) => (t.location.end.offset - t.location.start.offset) as usize,
                _ => moved,
            };
            let skipped = moved - span.min(moved);
            if peak > 64 * span + 16384 {
                self.fail("memory", format!("{} over a {}-character token and {} characters of trivia used {} bytes at once", what, span, skipped, peak));
            }
            // What it may ask for altogether: proportional to the text it scanned.
            if churn > 128 * moved + 65536 && self.bad.is_none() {
                self.fail("overwork", format!("{} over {} characters asked for {} bytes in all", what, moved, churn));
            }
            self.count("calls with heap measured", 1);
        }

        self.posn = now;
        let mut stop = false;
        match &seen {
            Seen::Tok(t) => {
                if t.location.end != now {
                    self.fail("posn", format!("{} gave a token ending at {} but the position is {}", what, t.location.end.offset, now.offset));
                }
                self.last_kind = kind(&t.value);
                stop = t.value == TokenData::EOF;
                if stop {
                    if let Some(p) = self.eof_at {
                        if p != now {
                            self.fail("eof-final", format!("end of input moved from {} to {}", p.offset, now.offset));
                        }
                    }
                    self.eof_at = Some(now);
                    self.count("end-of-input tokens", 1);
                } else if let Some(p) = self.eof_at {
                    self.fail("eof-final", format!("{} after the end of input at {}", model::show(t), p.offset));
                }
                if stop && ended_before {
                    self.count("reads after the end", 1);
                }
                match mode {
                    0 => self.history.push(t.clone()),
                    _ => self.mirror.push_back(t.clone()),
                }
            }
            Seen::Skipped => {
                self.history.clear();
                stop = now.offset as usize >= self.text.len();
            }
            Seen::Err(e) => {
                stop = true;
                self.count("lexical errors", 1);
                let text = match panics::catch(|| format!("{} {:?}", e, e)) {
                    Ok(t) => t,
                    Err(_) => {
                        self.fail("panic", "printing the error panicked".into());
                        String::new()
                    }
                };
                if text.is_empty() {
                    self.fail("panic", "the error prints as nothing".into());
                }
                if let Ok(Some(m)) = panics::catch(|| model::same_words(e)) {
                    self.fail("lexerr", m);
                }
            }
            Seen::Failed(_) => {
                stop = true;
                self.failed_once = true;
            }
            _ => {}
        }
        if let Seen::Err(_) | Seen::Failed(_) = seen {
            self.last_kind = 0;
            if self.eof_at.is_some() {
                self.fail("eof-final", format!("{} after the end of input", show_seen(&seen)));
            }
        }
        self.scans.push(Scan { operator, seen: seen.clone(), pulled, ended: self.src.ended.get(), lexer: self.lexer_no });
        let goal = if operator { "operator" } else { "operand" };
        self.record(&format!("{}({})", what, goal), seen);
        stop
    }

    /// Hold one scan against the reference model.
    fn judge(&mut self, what: &str, operator: bool, seen: &Seen, now: Posn, _pulled: usize) {
        if self.bad.is_some() {
            return;
        }
        let here = now.offset as usize;
        if here > self.text.len() {
            self.fail("posn", format!("after {} the position {} is past the {} delivered characters", what, here, self.text.len()));
            return;
        }
        if let Some(x) = model::line_col(now, &self.at, here, "position") {
            self.fail("linecol", format!("after {}: {}", what, x));
            return;
        }
        let mut m = Model::new(&self.text);
        m.pos = self.model.pos;
        m.line_start = self.model.line_start;
        m.broken = self.model.broken;
        let was = m.pos;
        let mut bad: Option<(&'static str, String)> = None;
        match seen {
            // A failure may strike anywhere; carry on from the reported position.
            Seen::Failed(_) => m.resync_failed(here),
            _ => {
                let want = m.next(operator);
                match (&want, seen) {
                    (Res::Gray, Seen::Err(_)) => m.resync_unknown(here),
                    (Res::Gray, _) => m.resync(here),
                    (Res::Err(_), Seen::Err(e)) => {
                        if let Some((w, at)) = m.wrong.borrow().clone() {
                            let wrong = model::judge_error(e, &w, at, &self.text).map(|x| format!("{} at {} gave error {}", what, was, x));
                            let wrong = wrong.or_else(|| {
                                let stands = here == at || w == model::Wrong::Comment && here >= was && here <= at;
                                if stands { None } else { Some(format!("{} failed at offset {} ({:?}) but the position is {}", what, at, e, here)) }
                            });
                            bad = wrong.map(|x| ("lexerr", x));
                            self.counters.push((w.probe(), 1));
                            let ends = at >= self.text.len();
                            self.counters.push((if ends { "errors naming the end of input" } else { "errors naming a character" }, 1));
                        }
                        m.resync_error(here)
                    }
                    (Res::Err(e), s) => bad = Some(("missing-error", format!("{} at {} gave {} where the text has an error ({})", what, was, show_seen(s), e))),
                    (Res::Tok(t), Seen::Err(e)) => bad = Some(("spurious-error", format!("{} at {} gave error {:?} where the text has {:?}", what, was, e, t.val))),
                    (Res::Tok(t), Seen::Tok(k)) => bad = model::compare(k, t, &self.text, &self.at, 0),
                    (Res::Tok(t), Seen::Skipped) => {
                        if here != t.end {
                            bad = Some(("span", format!("skip left the position at {} but the skipped token {:?} ends at {}", here, t.val, t.end)));
                        }
                        self.last_kind = match t.val {
                            Val::Num(_) => 2,
                            Val::Ident(..) => 5,
                            Val::Punc(")") | Val::Punc("]") | Val::Punc("}") => 7,
                            _ => 9,
                        };
                    }
                    _ => {}
                }
                match want {
                    Res::Gray => self.counters.push(("tokens not judged", 1)),
                    Res::Tok(_) => self.counters.push(("tokens judged", 1)),
                    Res::Err(_) => self.counters.push(("errors judged", 1)),
                }
            }
        }
        let (pos, line_start, broken) = (m.pos, m.line_start, m.broken);
        self.model = ModelState { pos, line_start, broken };
        if let Some((c, msg)) = bad {
            self.fail(c, msg);
        }
    }

    /// The plain client: read straight through the same text with the goals
    /// the scans were made with. Everything must be the same.
    pub fn straight(&mut self) {
        if self.bad.is_some() {
            return;
        }
        let mut i = 0;
        let mut start = 0;
        let full: Vec<char> = {
            let a = &self.src.text;
            let cut = a.len().min(self.src.eof_at).min(self.src.stalls.borrow().iter().map(|s| s.0).min().unwrap_or(usize::MAX));
            a[..cut].to_vec()
        };
        while i < self.scans.len() {
            let no = self.scans[i].lexer;
            let mut l = Lexer::new(full[start.min(full.len())..].iter().cloned());
            while i < self.scans.len() && self.scans[i].lexer == no {
                let (op, seen) = (self.scans[i].operator, &self.scans[i].seen);
                if let Seen::Failed(_) = seen {
                    // From here on the two clients' histories differ.
                    while i < self.scans.len() && self.scans[i].lexer == no {
                        start = start.max(0);
                        i += 1;
                    }
                    break;
                }
                let got = match panics::catch(|| l.read_token(op)) {
                    Ok(Ok(t)) => Seen::Tok(t),
                    Ok(Err(e)) => Seen::Err(e),
                    Err(Caught::Foreign(m)) => {
                        self.fail("panic", format!("reading straight through: {}", m));
                        return;
                    }
                    Err(_) => return,
                };
                let ok = match (&got, seen) {
                    (Seen::Tok(_), Seen::Skipped) => true,
                    (a, b) => same_seen(a, b),
                };
                if !ok {
                    let m = format!("scan {} gave {} but a plain reader gets {}", i, show_seen(seen), show_seen(&got));
                    self.fail("straight", m);
                    return;
                }
                i += 1;
            }
            if i < self.scans.len() {
                // A later lexer started where the earlier one stopped pulling.
                start += self.scans[i - 1].pulled;
            }
        }
        self.counters.push(("scans compared with a plain reader", self.scans.len() as u64));
    }

    pub fn finish_counters(&mut self) {
        let s = self.src.clone();
        for (k, n) in [
            ("fault:source ended early", s.fired_eof.get()),
            ("fault:source stalled", s.fired_stall.get()),
            ("fault:source failed once", s.fired_panic.get()),
            ("fault:source failed after its end", s.fired_after_end.get()),
            ("tokens scanned", self.tokens),
        ] {
            if n > 0 {
                self.count(k, n);
            }
        }
        if s.panic_after_end && s.ended.get() {
            self.count("fault:source unusable after its end", 1);
        }
    }
}
