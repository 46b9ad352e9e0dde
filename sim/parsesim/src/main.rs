//! Simulated parses and ESTree loads.
mod ast;
mod est;
mod grammar;
mod info;
#[path = "../../lexsim/src/model.rs"]
#[allow(dead_code)]
mod model;
mod parse;
mod rules;
mod shape;
mod tree;

use parse::{Actor, Done, Hook, Plan, Res, Ship, Tree, Verdict};
use serde::{Deserialize, Serialize};
use simcore::coop::Coop;
use simcore::driver::{self, Info, Outcome, World};
use simcore::entropy;
use simcore::rng::{Fold, Rng};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

const STACK: usize = 64 << 20;
/// What a program gets that is long but not deep.
const LONG_STACK: usize = 1 << 20;
/// Bytes of memory asked for per character of a long program, and in all.
const COST: usize = 12_000;
const COST_BASE: usize = 1 << 20;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Mode {
    Single,
    /// One after another on one thread.
    After,
    /// A parse's source runs other parses while it is polled.
    Nested,
    /// One after another, with the same fault at every place in turn.
    Sweep(u8),
    /// A thread per parse, switched at source polls.
    Threads,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct ParseSc {
    hash_seed: u64,
    mode: Mode,
    actors: Vec<Actor>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    sched: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Sc {
    Parse(ParseSc),
    Est(est::EstSc),
}

struct Nest {
    actors: Vec<Actor>,
    plans: Vec<Plan>,
    sched: Vec<u8>,
    pos: Cell<usize>,
    next: Cell<usize>,
    done: RefCell<Vec<Option<Done>>>,
    order: RefCell<Fold>,
    nested: Cell<u64>,
}
fn run_nested(c: Rc<Nest>, i: usize) {
    let h = {
        let c = c.clone();
        Rc::new(move || {
            let k = c.pos.get();
            c.pos.set(k + 1);
            let j = c.next.get();
            if c.sched.get(k).map_or(false, |&b| b >= 200) && j < c.actors.len() {
                c.next.set(j + 1);
                c.nested.set(c.nested.get() + 1);
                c.order.borrow_mut().add(((i as u64) << 40) | ((j as u64) << 32) | k as u64);
                run_nested(c.clone(), j);
            }
        })
    };
    let d = parse::stream(&c.actors[i], &c.plans[i], i as u64, true, Hook::Call(h));
    c.done.borrow_mut()[i] = Some(d);
}

fn together(sc: &ParseSc, out: &mut Outcome, inter: &mut Fold, cost: &mut Option<String>) -> Vec<Done> {
    let n = sc.actors.len();
    match sc.mode {
        Mode::Single | Mode::After | Mode::Sweep(_) => {
            if sc.mode != Mode::Single {
                out.count("runs one after another", 1);
            }
            (0..n)
                .map(|i| {
                    let (a, p) = (&sc.actors[i], sc.actors[i].plan());
                    let run = || {
                        let churn = simcore::alloc::total();
                        let d = parse::stream(a, &p, i as u64, true, Hook::None);
                        Ship((d, simcore::alloc::total() - churn))
                    };
                    if !a.long() {
                        return run().0 .0;
                    }
                    // Length must not take stack, nor more memory than there is text.
                    let (d, churn) = std::thread::scope(|s| std::thread::Builder::new().stack_size(LONG_STACK).spawn_scoped(s, run).unwrap().join().unwrap()).0;
                    out.count("long programs", 1);
                    out.count("characters of long programs", p.text.len() as u64);
                    let most = churn.saturating_sub(COST_BASE) / p.text.len().max(1);
                    if most > COST {
                        *cost = Some(format!("parse {} asked for {} bytes of memory for {} characters", i, churn, p.text.len()));
                    }
                    d
                })
                .collect()
        }
        Mode::Nested => {
            let c = Rc::new(Nest {
                actors: sc.actors.clone(),
                plans: sc.actors.iter().map(|a| a.plan()).collect(),
                sched: sc.sched.clone(),
                pos: Cell::new(0),
                next: Cell::new(0),
                done: RefCell::new((0..n).map(|_| None).collect()),
                order: RefCell::new(Fold::new()),
                nested: Cell::new(0),
            });
            while c.next.get() < n {
                let j = c.next.get();
                c.next.set(j + 1);
                run_nested(c.clone(), j);
            }
            out.count("runs nested", 1);
            out.count("parses run from inside another's source", c.nested.get());
            inter.add(c.order.borrow().0);
            let d = c.done.borrow_mut().drain(..).map(|d| d.unwrap()).collect();
            d
        }
        Mode::Threads => {
            let coop = Arc::new(Coop::new(n, sc.sched.clone()));
            let d: Vec<Done> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|i| {
                        let coop = coop.clone();
                        let a = &sc.actors[i];
                        std::thread::Builder::new()
                            .stack_size(STACK)
                            .spawn_scoped(s, move || {
                                coop.enter(i);
                                let d = parse::stream(a, &a.plan(), i as u64, true, Hook::Coop(coop.clone(), i));
                                coop.finish(i);
                                Ship(d)
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap().0).collect()
            });
            let (sw, order) = coop.summary();
            out.count("runs on several threads", 1);
            out.count("switches between parses", sw);
            out.steps += sw;
            inter.add(order);
            d
        }
    }
}

/// The goal is chosen after the parse (and everything else in the run) is
/// over; the parse with the goal known from the start is the reference.
fn late(i: usize, a: &Actor, d: &Done, text: &[char], seed: u64, out: &mut Outcome, log: &mut Fold) -> Option<String> {
    use esprit::error::Error;
    let strictly = |e: &Error| matches!(*e, Error::ContextualKeyword(..) | Error::IllegalStrictBinding(..) | Error::StrictWith(..) | Error::CompoundParamWithUseStrict(..));
    let mut order = [1u8, 2, 3];
    order.rotate_left((seed % 3) as usize);
    if seed & 8 != 0 {
        order.swap(0, 1);
    }
    for k in order {
        let goal = ["", "a script", "a strict script", "a module"][k as usize];
        let eager = elsewhere(&Actor { entry: k - 1, then: 0, ..a.clone() }, text, seed ^ k as u64);
        let differ = |late: &Res| Some(format!("program {} taken as {} afterwards: {}; parsed as {}: {}", i, goal, late.show(), goal, eager.show()));
        match &d.res {
            Res::Ok(Tree::Program(p)) => {
                let p = p.clone();
                let r = parse::guard(move || parse::then(p, k));
                log.add(r.digest());
                out.count("goals chosen late", 1);
                out.count(if matches!(r, Res::Ok(_)) { "late goals accepted" } else { "late goals refused" }, 1);
                if !r.same(&eager) {
                    return differ(&r);
                }
            }
            Res::Err(e) => {
                out.count("goals of rejected programs compared", 1);
                // A construct that is not supported is reported before the goal is known.
                let same = match &eager {
                    Res::Err(f) => matches!(*e, Error::UnsupportedFeature(..)) || (k > 1 && strictly(f)) || strictly(e) || e == f,
                    _ => false,
                };
                if !same {
                    return differ(&d.res);
                }
            }
            _ => {}
        }
    }
    None
}

/// Is the program put together as it should be?
fn arrange(i: usize, a: &Actor, p: &Plan, d: &Done, seed: u64, out: &mut Outcome) -> Option<(&'static str, String)> {
    use parse::Expect;
    let prog = match &a.source {
        parse::Source::Prog { prog, .. } => prog,
        _ => return None,
    };
    let lost = a.faults.iter().any(|f| matches!(f, parse::Fault::SemiLost { .. } | parse::Fault::Break { .. }));
    let class = if lost { "asi" } else { "shape" };
    match (&p.expect, &d.res) {
        (Expect::Unjudged, _) => out.count("layouts not judged", 1),
        (Expect::Same(flags), Res::Ok(t)) => {
            out.count("arrangements compared", 1);
            out.count("semicolons to be inserted", flags.iter().filter(|f| !**f).count() as u64);
            let (got, semis) = shape::of_tree(t);
            if let Some(m) = shape::differ(&shape::of_program(prog), &got) {
                return Some((class, format!("program {}: {}", i, m)));
            }
            if !lost {
                // The same program in its plainest form, parsed by itself.
                let plain: Vec<char> = ast::text(prog, ast::PLAIN).chars().collect();
                let o = elsewhere(a, &plain, seed);
                let bare = parse::bare(t);
                out.count("trees compared without their locations", 1);
                if let Some(m) = parse::located(&bare) {
                    return Some(("shape", format!("program {} untracked: {}", i, m)));
                }
                if shape::of_tree(&bare).0 != got {
                    return Some(("shape", format!("program {} untracked reads {}", i, shape::of_tree(&bare).0)));
                }
                match &o {
                    Res::Ok(u) if parse::bare(u).same(&bare) => {}
                    Res::Ok(_) => return Some(("shape", format!("program {} and its plainest form differ, locations apart", i))),
                    o => return Some(("shape", format!("program {} was accepted, its plainest form was {}", i, o.show()))),
                }
            }
            if semis != *flags {
                let k = semis.iter().zip(flags).take_while(|(a, b)| a == b).count();
                return Some(("asi", format!("program {}: semicolon {} of {} was {}; the tree says otherwise", i, k, flags.len(), if flags.get(k) == Some(&true) { "written" } else { "not written" })));
            }
        }
        (Expect::Same(_), Res::Err(e)) => return Some((class, format!("program {} was rejected though only semicolons that are inserted, or line breaks that do not matter, were changed: {:?}", i, e))),
        (Expect::Reject(why), r) => {
            out.count("programs that miss a semicolon", 1);
            if let Res::Ok(_) = r {
                return Some(("asi", format!("program {} was accepted, but {}", i, why)));
            }
        }
        (Expect::Like(text, why), r) => {
            out.count(if why.starts_with("the expr") { "expressions that go on in the next line" } else { "statements cut by a line break" }, 1);
            let o = elsewhere(a, text, seed);
            let same = match (r, &o) {
                (Res::Ok(x), Res::Ok(y)) => shape::of_tree(x).0 == shape::of_tree(y).0,
                (Res::Err(_), Res::Err(_)) => true,
                _ => false,
            };
            if !same {
                let t: String = text.iter().collect();
                return Some(("asi", format!("program {}: {}; yet it was {} and {:?} is {}", i, why, r.show(), t, o.show())));
            }
        }
        _ => {}
    }
    None
}

/// Is the program rejected just when something in it is out of place, and for that?
fn in_place(i: usize, a: &Actor, d: &Done, out: &mut Outcome) -> Option<String> {
    let (prog, n) = a.program()?;
    if !a.to_the_letter() {
        return None;
    }
    let module = (a.entry, a.then) == (2, 0) || (a.entry, a.then) == (3, 3);
    let offs = match rules::offences(&prog, a.strict(), module) {
        Some(o) => o,
        None => {
            out.count("programs the rules do not settle", 1);
            return None;
        }
    };
    match (&d.res, offs.is_empty()) {
        (Res::Ok(_), true) => {
            out.count("programs with everything in place", 1);
            if n > 0 {
                out.count("constructs elsewhere but in place", n as u64);
            }
            None
        }
        (Res::Ok(_), false) => Some(format!("program {} was accepted in spite of {:?}", i, offs)),
        (Res::Err(e), true) => Some(format!("program {} was rejected, though everything in it is in its place: {:?}", i, e)),
        (Res::Err(e), false) => match rules::blamed(e) {
            Some(o) if offs.contains(&o) => {
                out.count("programs with something out of place", 1);
                if offs.iter().all(|p| *p == o) {
                    out.count("programs with one offence", 1);
                }
                out.count(
                    match o.kind {
                        "break" => "offence:stray break",
                        "continue" => "offence:stray continue",
                        "return" => "offence:stray return",
                        "default" => "offence:second default",
                        "with" => "offence:with in strict code",
                        "target" => "offence:value as a target",
                        "label" => "offence:label not around the jump",
                        "label type" => "offence:continue to no loop",
                        "keyword" => "offence:reserved word as a name",
                        _ => "offence:eval or arguments bound",
                    },
                    1,
                );
                None
            }
            _ => Some(format!("program {} was rejected with {:?}; what is out of place is {:?}", i, e, offs)),
        },
        _ => None,
    }
}

/// Does the grammar derive the text, and if so, as the parser says?
fn derived(i: usize, a: &Actor, p: &Plan, d: &Done, out: &mut Outcome) -> Option<String> {
    use grammar::Reading;
    if a.long() || matches!(a.source, parse::Source::Deep { .. }) {
        return None;
    }
    let module = (a.entry, a.then) == (2, 0) || (a.entry, a.then) == (3, 3);
    match (grammar::read(&p.text, a.strict(), module), &d.res) {
        (Reading::Open(why), _) => {
            out.count("texts the grammar does not settle", 1);
            if std::env::var("OPEN").is_ok() {
                out.count(why, 1);
            }
            None
        }
        (Reading::No(n), Res::Ok(_)) => Some(format!("text {} was accepted, which is no program: {}", i, n.why)),
        (Reading::No(n), Res::Err(e)) => {
            out.count("texts that are no program", 1);
            if n.vague {
                return None;
            }
            use esprit::error::Error as X;
            // An import or export settles that this is a module, and was one from the start.
            if n.wanted == grammar::ITEM && a.entry == 3 {
                let m = match grammar::read(&p.text, true, true) {
                    Reading::No(m) if !m.vague && (m.at, &m.wanted) == (n.at, &n.wanted) => m,
                    _ => return None,
                };
                out.count("programs that turn out to be modules", 1);
                let right = match (rules::blamed(e), e) {
                    (Some(o), _) => m.offences.contains(&o),
                    (None, X::UnsupportedFeature(what)) => !what.is_empty() && m.offences.iter().all(|o| o.kind == "with"),
                    _ => false,
                };
                if !m.offences.is_empty() {
                    out.count("modules with something out of place before the import or export", 1);
                }
                return (!right).then(|| format!("text {} was rejected with {:?}, but {} makes it a module, in which {:?} is out of place before that", i, e, n.why, m.offences));
            }
            let here = |t: &joker::token::Token| n.token && t.location.start.offset as usize == n.at;
            let right = match e {
                // What is known but not supported is refused as such; where it is
                // not yet known whether this is a module, what came before may be blamed.
                X::UnsupportedFeature(what) => !what.is_empty() && (n.wanted == grammar::PATTERN || n.wanted == grammar::ITEM && a.entry >= 2),
                X::UnexpectedToken(_) if n.wanted == grammar::PATTERN || n.wanted == grammar::ITEM && a.entry >= 2 => false,
                // A word may be blamed for what does not follow it.
                X::UnexpectedToken(t) => here(t) && !matches!(&n.wanted[..], "a semicolon" | "catch or finally" | "what is thrown")
                    || matches!(t.value, joker::token::TokenData::Reserved(_)) && n.before == Some(t.location.start.offset as usize) && matches!(&n.wanted[..], "a name" | "a value"),
                X::FailedASI(t) => here(t) && n.wanted == "a semicolon",
                X::OrphanTry(t) => here(t) && n.wanted == "catch or finally",
                X::ThrowArgument(_) => n.wanted == "what is thrown",
                // A slash where no token can stand is read as the start of a regular expression.
                X::LexError(_) => !n.token || p.text.get(n.at) == Some(&'/'),
                e => rules::blamed(e).map_or(false, |o| n.offences.contains(&o)),
            };
            if right {
                out.count("first tokens that cannot follow blamed", 1);
                if let X::UnsupportedFeature(_) = e {
                    out.count("unsupported constructs refused as such", 1);
                }
                return None;
            }
            Some(format!("text {} was rejected with {:?}, but what is wrong with it is {}{}", i, e, n.why, if n.offences.is_empty() { String::new() } else { format!(" and {:?}", n.offences) }))
        }
        (Reading::Yes { offences, .. }, Res::Ok(_)) if !offences.is_empty() => Some(format!("text {} was accepted in spite of {:?}", i, offences)),
        (Reading::Yes { shape, exact, semis, .. }, Res::Ok(t)) => {
            out.count("texts that are programs", 1);
            let (got, had) = shape::of_tree(t);
            if exact {
                out.count("derivations compared", 1);
                if let Some(m) = shape::differ(&shape, &got) {
                    return Some(format!("text {}: {}", i, m));
                }
            }
            (semis != had).then(|| format!("text {}: the tree is wrong about which semicolons were written: {:?}, not {:?}", i, had, semis))
        }
        (Reading::Yes { offences, .. }, Res::Err(e)) => match rules::blamed(e) {
            Some(o) if offences.contains(&o) => {
                out.count("programs with something out of place", 1);
                None
            }
            _ => Some(format!("text {} was rejected with {:?}, though the grammar derives it{}", i, e, if offences.is_empty() { String::new() } else { format!("; what is out of place is {:?}", offences) })),
        },
        _ => None,
    }
}

/// What a tree is apart from its locations; `new X` and `new X()` are one.
fn essence(t: &parse::Tree) -> String {
    shape::of_tree(t).0.replace("(new- ", "(new ")
}

fn dump(t: &parse::Tree) -> String {
    match t {
        parse::Tree::Script(s) | parse::Tree::Program(esprit::Program::Ambiguous(_, s)) => format!("{:?}", s),
        parse::Tree::Module(m) | parse::Tree::Program(esprit::Program::Module(m)) => format!("{:?}", m),
    }
}

/// Does comparing trees tell the program that arrived from the one that was sent?
fn told_apart(i: usize, a: &Actor, d: &Done, seed: u64, out: &mut Outcome) -> Option<String> {
    let t = match &d.res {
        Res::Ok(t) => t,
        _ => return None,
    };
    let mut sent = Actor { faults: vec![], ..a.clone() };
    if let (parse::Source::Prog { style, .. }, true) = (&mut sent.source, seed & 3 == 0) {
        *style = ast::PLAIN;
    }
    let text = sent.plan().text;
    let u = match elsewhere(a, &text, seed) {
        Res::Ok(u) => u,
        _ => {
            out.count("sent programs rejected", 1);
            return None;
        }
    };
    let text: String = text.into_iter().collect();
    // With their locations: what is equal has everything in the same place.
    let (w, x) = (parse::walk_in_full(t), parse::walk_in_full(&u));
    let there = (&w.out, &w.locs, &w.spans) == (&x.out, &x.locs, &x.spans);
    let (eq, qe) = (t.same(&u), u.same(t));
    if eq != qe {
        return Some(format!("tree {} and that of {:?} are equal one way round only", i, text));
    }
    if eq && !(there && shape::of_tree(t) == shape::of_tree(&u)) {
        return Some(format!("tree {} equals that of {:?}, locations and all, though they differ", i, text));
    }
    if eq {
        out.count("trees equal with their locations", 1);
    }
    // And without.
    let (b, c) = (parse::bare(t), parse::bare(&u));
    let alike = essence(&b) == essence(&c);
    out.count(if alike { "pairs put together alike" } else { "pairs put together differently" }, 1);
    let (eq, qe) = (b.same(&c), c.same(&b));
    if eq != alike || qe != alike {
        return Some(format!("tree {} {} that of {:?}, locations apart; they read {} and {}", i, if eq { "equals" } else { "does not equal" }, text, essence(&b), essence(&c)));
    }
    let (p, q) = (dump(&b), dump(&c));
    if (p == q) != alike {
        return Some(format!("tree {} and that of {:?} are {}, yet shown {}: {} and {}", i, text, if alike { "equal" } else { "different" }, if p == q { "alike" } else { "differently" }, p, q));
    }
    // Copies are what they are copies of.
    if !b.same(&parse::bare(&b)) || !t.same(&t.copy()) {
        return Some(format!("tree {} does not equal its copy", i));
    }
    None
}

fn elsewhere(a: &Actor, text: &[char], seed: u64) -> Res {
    entropy::seed(seed);
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || Ship(parse::from_string(a, text))).unwrap().join().unwrap()
    })
    .0
}

fn fault_name(f: &parse::Fault) -> &'static str {
    use parse::Fault::*;
    match f {
        Lose { .. } | LoseR { .. } => "fault:token lost",
        Dup { .. } | CopyR { .. } => "fault:token repeated",
        Swap { .. } | Move { .. } | MoveR { .. } => "fault:tokens reordered",
        Replace { .. } => "fault:token garbled",
        Insert { .. } | Tail { .. } => "fault:stray text",
        SemiLost { .. } => "fault:semicolon lost",
        Break { .. } => "fault:line broken",
        Rule { what, .. } => rules::kind_name(*what),
        Flip { .. } => "fault:character corrupted",
        Drop { .. } => "fault:character lost",
        DupC { .. } => "fault:character repeated",
        SwapC { .. } => "fault:characters reordered",
        InsC { .. } => "fault:stray character",
        Eof { .. } => "fault:source ended early",
        Stall { .. } => "fault:source stalled",
        Panic { .. } => "fault:source failure armed",
        PanicAfterEnd => "fault:source unusable after its end",
    }
}

fn exec_parse(prop: &str, sc: &ParseSc, mut trace: Option<&mut Vec<String>>) -> Outcome {
    let mut out = Outcome::default();
    let mut inter = Fold::new();
    let mut log = Fold::new();
    let swept;
    let sc = match sc.mode {
        Mode::Sweep(k) => {
            out.count("runs that sweep one fault over every place", 1);
            swept = ParseSc { actors: parse::sweep(&sc.actors[0], k), ..sc.clone() };
            &swept
        }
        _ => sc,
    };
    let mut cost = None;
    let done = together(sc, &mut out, &mut inter, &mut cost);
    let mut bad: Vec<(&'static str, String)> = cost.into_iter().map(|m| ("cost", m)).collect();
    for (i, d) in done.iter().enumerate() {
        let a = &sc.actors[i];
        let p = a.plan();
        if let Some(t) = trace.as_mut() {
            let txt: String = p.text.iter().take(600).collect();
            t.push(format!(
                "parse {}: entry {} source {:?}{} ({} characters{}), faults {:?}",
                i,
                ["script", "strict", "module", "program"][a.entry as usize % 4],
                txt,
                if p.text.len() > 600 { "…" } else { "" },
                p.text.len(),
                if p.intact { ", intact" } else { "" },
                a.faults
            ));
            t.push(format!("parse {}: pulled {}, saw the end: {}, polls after the end: {}, {}", i, d.pulled, d.ended, d.late, d.res.show()));
        }
        for f in &a.faults {
            out.count(fault_name(f), 1);
        }
        out.steps += d.polls;
        let dig = d.res.digest();
        log.add(dig);
        log.add(d.pulled as u64);
        log.add(d.polls);
        inter.add(d.res.kind());
        inter.add(d.pulled as u64);
        for c in &p.text {
            inter.add(*c as u64);
        }
        inter.add(a.entry as u64 * 4 + a.then as u64);
        let mut st = Fold::new();
        st.add(d.res.kind());
        st.add(a.entry as u64 * 4 + a.then as u64);
        st.add(d.ended as u64 * 2 + d.fired as u64);
        st.add((d.pulled as u64).min(40) / 4);
        out.states.push(st.0);
        out.nontrivial |= d.polls > 4;

        match &d.res {
            Res::Foreign(m) => bad.push(("panic", format!("parse {}: {}", i, m))),
            Res::Injected(id) => {
                out.count("parses ended by the source's failure", 1);
                if !(d.fired && *id == i as u64 * 16 + 1) && d.late == 0 {
                    bad.push(("failure", format!("parse {} surfaced failure {}, which its source did not raise", i, id)));
                }
            }
            Res::Ok(t) => {
                out.count("parses accepted", 1);
                if p.intact {
                    out.count("intact programs accepted", 1);
                }
                let w = parse::walk_in_full(t);
                log.add(w.nodes);
                out.count("tree nodes walked", w.nodes);
                if !d.ended {
                    bad.push(("unread", format!("parse {} was accepted after {} of {} characters, before the source's end", i, d.pulled, p.text.len())));
                }
                let acc = parse::account(&p.text, &w);
                match acc.tokens {
                    Verdict::Yes => out.count("accepted trees accounted for", 1),
                    Verdict::Unknown => out.count("accepted trees not judged", 1),
                    Verdict::No(m) => bad.push(("torn", format!("parse {} was accepted, but {}", i, m))),
                }
                out.count("places of tokens in trees checked", acc.placed);
                if let Some(m) = acc.misplaced.or_else(|| parse::stray(&p.text, &w)) {
                    bad.push(("place", format!("parse {}: {}", i, m)));
                }
            }
            Res::Err(e) => {
                out.count("parses rejected", 1);
                if d.ended {
                    out.count("parses rejected at the end", 1);
                }
                if p.intact {
                    bad.push(("rejected", format!("parse {} of an intact program was rejected: {:?}", i, e)));
                }
                match parse::judge_error(a, e, d, &p.text) {
                    Some(b) => bad.push((b.0, format!("parse {}: {}", i, b.1))),
                    None => out.count("errors judged", 1),
                }
            }
        }
        if matches!(prop, "C18" | "C19") && !d.fired && d.late == 0 {
            if let Some(b) = arrange(i, a, &p, d, sc.hash_seed ^ i as u64, &mut out) {
                bad.push(b);
            }
        }
        if prop == "C21" && !d.fired && d.late == 0 {
            if let Some(m) = in_place(i, a, d, &mut out) {
                bad.push(("context", m));
            }
        }
        if prop == "C25" && !d.fired && d.late == 0 {
            if let Some(m) = derived(i, a, &p, d, &mut out) {
                bad.push(("derive", m));
            }
        }
        if prop == "C22" && !d.fired && d.late == 0 && !a.long() {
            if let Some(m) = told_apart(i, a, d, sc.hash_seed ^ i as u64, &mut out) {
                bad.push(("tell", m));
            }
        }
        if d.fired {
            out.count("fault:source failed", 1);
            if !matches!(d.res, Res::Injected(_) | Res::Foreign(_)) {
                bad.push(("failure", format!("parse {} swallowed the source's failure: {}", i, d.res.show())));
            }
        }
        if d.late > 0 {
            bad.push(("eof-poll", format!("parse {} polled its source {} more times after it had ended", i, d.late)));
        }
        if prop == "C17" && !d.fired && d.late == 0 {
            if let Some(m) = late(i, a, d, &p.text, sc.hash_seed ^ i as u64, &mut out, &mut log) {
                bad.push(("late", m));
            }
        }
        if prop == "C12" && !d.fired && d.late == 0 {
            let o = elsewhere(a, &p.text, sc.hash_seed ^ 0x5555);
            out.count("parses compared with the string entry point alone", 1);
            if !o.same(&d.res) {
                bad.push(("isolate", format!("parse {} from its stream: {}; from a string by itself: {}", i, d.res.show(), o.show())));
            }
        }
    }
    let rel = info::info(prop).map_or(&[][..], |i| i.classes);
    let at = bad.iter().position(|b| rel.contains(&b.0)).unwrap_or(0);
    if let Some((c, m)) = bad.into_iter().nth(at) {
        out.fail(c, m);
    }
    out.log = log.0;
    out.interleaving = inter.0;
    out
}

/// Heap bytes that are still taken after everything a round made is dropped.
fn growth(round: impl FnOnce()) -> isize {
    let before = simcore::alloc::live();
    round();
    simcore::alloc::live() as isize - before as isize
}

/// The same client with other names in its program.
fn renamed(sc: &ParseSc, k: u64) -> ParseSc {
    let other = |a: &Actor| {
        let text = a.plan().text;
        let mut out = String::new();
        for (i, &c) in text.iter().enumerate() {
            let in_name = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '$';
            out.push(c);
            let ends = c.is_ascii_digit() && !text.get(i + 1).map_or(false, |&c| in_name(c));
            let start = text[..i].iter().rposition(|&c| !in_name(c)).map_or(0, |k| k + 1);
            if ends && text[start] == 'v' {
                out.push_str(&format!("{}", 100 + k));
            }
        }
        let faults = a.faults.iter().filter(|f| matches!(f, parse::Fault::Panic { .. } | parse::Fault::PanicAfterEnd)).cloned().collect();
        Actor { entry: a.entry, then: a.then, source: parse::Source::Text(out), faults }
    };
    ParseSc { actors: sc.actors.iter().map(other).collect(), ..sc.clone() }
}

/// Is everything given back? Something may be kept the first time; what is
/// kept every time is lost.
fn kept(out: &mut Outcome, mut round: impl FnMut(u64) -> isize) -> Option<String> {
    const MANY: u64 = 300;
    let mut all = 0;
    let mut again = 0;
    for k in 0..4 {
        let g = round(k);
        all += g;
        again += (k > 0 && g > 0) as u64;
        out.count("rounds after which everything was dropped", 1);
    }
    if again == 0 {
        return None;
    }
    let mut late = 0;
    for k in 4..MANY {
        let g = round(k);
        all += g;
        late += (k >= MANY / 2 && g > 0) as u64;
    }
    (late > 0 && all > 0).then(|| format!("{} bytes are still taken after {} rounds though all their results were dropped; {} of the last {} rounds took more", all, MANY, late, MANY - MANY / 2))
}

fn exec_kept(sc: &Sc, trace: Option<&mut Vec<String>>) -> Outcome {
    let mut out = match sc {
        Sc::Parse(s) => exec_parse("C23", s, trace),
        Sc::Est(s) => {
            let mut o = est::exec("C23", s, trace);
            o.violation = o.violation.take().filter(|v| v.0 == "panic");
            o
        }
    };
    if out.violation.is_some() {
        return out;
    }
    let lost = match sc {
        Sc::Parse(s) => kept(&mut out, |k| {
            let r = renamed(s, k);
            growth(|| {
                let (mut o, mut f, mut c) = (Outcome::default(), Fold::new(), None);
                drop(together(&r, &mut o, &mut f, &mut c));
            })
        }),
        Sc::Est(s) => {
            out.count("documents loaded again and again", s.loads.len() as u64);
            kept(&mut out, |_| growth(|| est::settle(s)))
        }
    };
    if let Some(m) = lost {
        out.fail("kept", m);
    }
    out
}

struct ParseWorld;
impl World for ParseWorld {
    type Sc = Sc;
    const STACK: usize = STACK;
    fn info(prop: &str) -> Option<Info> {
        info::info(prop)
    }
    fn runs(prop: &str, thorough: bool) -> u64 {
        let q = match prop {
            "C12" => 100_000,
            "C23" => 80_000,
            "C17" => 60_000,
            "C18" | "C21" | "C22" => 200_000,
            "C25" => 300_000,
            "C14" => 300_000,
            _ => 500_000,
        };
        if thorough { q * 40 } else { q }
    }
    fn generate(prop: &str, r: &mut Rng, idx: u64) -> Sc {
        if prop == "C14" || prop == "C23" && r.pct(20) {
            return Sc::Est(est::generate(r));
        }
        // More of them in the part the slow build repeats.
        if matches!(prop, "C10" | "C11") && r.below(if idx < 25_000 { 150 } else { 2000 }) == 0 {
            return Sc::Parse(ParseSc { hash_seed: r.u64(), mode: Mode::Single, actors: vec![parse::gen_long(r)], sched: vec![] });
        }
        let mode = match prop {
            "C21" if r.pct(4) => Mode::Sweep(parse::SWEEP_RULES + r.below(rules::KINDS as usize) as u8),
            "C22" | "C25" if r.pct(4) => Mode::Sweep(r.below(parse::SWEEP_RULES as usize) as u8),
            "C21" if r.pct(40) => Mode::Single,
            "C22" | "C25" if r.pct(70) => Mode::Single,
            "C12" | "C17" | "C18" | "C21" | "C22" | "C23" | "C25" => match r.below(10) {
                0 => Mode::Single,
                1..=2 => Mode::After,
                3..=6 => Mode::Nested,
                _ => Mode::Threads,
            },
            "C19" if r.pct(5) => Mode::Sweep((15 * r.below(13) + r.range(11, 13)) as u8),
            _ if prop != "C19" && r.pct(3) => Mode::Sweep(r.below(parse::SWEEP_RULES as usize) as u8),
            _ => Mode::Single,
        };
        let mode = if prop == "C12" && r.pct(1) { Mode::Sweep(r.below(parse::SWEEP_RULES as usize) as u8) } else { mode };
        let n = if matches!(mode, Mode::Single | Mode::Sweep(_)) { 1 } else { r.range(2, 5) };
        let actors: Vec<Actor> = (0..n).map(|_| parse::gen_actor(r, prop)).collect();
        let sched = match mode {
            Mode::Single | Mode::After | Mode::Sweep(_) => vec![],
            _ => {
                let len = r.range(1, 400);
                let hot = r.below(60);
                (0..len).map(|_| if r.pct(hot) { r.range(128, 256) as u8 } else { r.below(128) as u8 }).collect()
            }
        };
        Sc::Parse(ParseSc { hash_seed: r.u64(), mode, actors, sched })
    }
    fn hash_seed(sc: &Sc) -> u64 {
        match sc {
            Sc::Parse(s) => s.hash_seed,
            Sc::Est(s) => s.hash_seed,
        }
    }
    fn exec(prop: &str, sc: &Sc) -> Outcome {
        if prop == "C23" {
            return exec_kept(sc, None);
        }
        match sc {
            Sc::Parse(s) => exec_parse(prop, s, None),
            Sc::Est(s) => est::exec(prop, s, None),
        }
    }
    fn shrink(sc: &Sc) -> Vec<Sc> {
        match sc {
            Sc::Parse(s) => shrink_parse(s).into_iter().map(Sc::Parse).collect(),
            Sc::Est(s) => est::shrink(s).into_iter().map(Sc::Est).collect(),
        }
    }
    fn size(sc: &Sc) -> usize {
        match sc {
            Sc::Parse(s) => s.actors.iter().map(|a| 50 + parse::size(a)).sum::<usize>() + s.sched.iter().map(|&b| 1 + (b > 127) as usize).sum::<usize>() + (s.mode != Mode::Single) as usize * 30 + matches!(s.mode, Mode::Sweep(_)) as usize * 10_000,
            Sc::Est(s) => est::size(s),
        }
    }
    fn explain(prop: &str, sc: &Sc) -> Vec<String> {
        let mut t = vec![];
        let o = match sc {
            _ if prop == "C23" => exec_kept(sc, Some(&mut t)),
            Sc::Parse(s) => exec_parse(prop, s, Some(&mut t)),
            Sc::Est(s) => est::exec(prop, s, Some(&mut t)),
        };
        if let Some((c, m)) = o.violation {
            t.push(format!("broken: {}: {}", c, m));
        }
        t
    }
}

fn shrink_parse(s: &ParseSc) -> Vec<ParseSc> {
    let mut v = vec![];
    if let Mode::Sweep(k) = s.mode {
        let all = parse::sweep(&s.actors[0], k);
        for a in all.iter().rev() {
            v.push(ParseSc { mode: Mode::Single, sched: vec![], actors: vec![a.clone()], hash_seed: s.hash_seed });
        }
        for n in [all.len() / 2, all.len().saturating_sub(1)] {
            v.push(ParseSc { mode: Mode::After, sched: vec![], actors: all[n..].to_vec(), hash_seed: s.hash_seed });
            v.push(ParseSc { mode: Mode::After, sched: vec![], actors: all[..n].to_vec(), hash_seed: s.hash_seed });
        }
        v.push(ParseSc { mode: Mode::After, sched: vec![], actors: all, hash_seed: s.hash_seed });
        return v;
    }
    if s.mode != Mode::Single {
        for a in &s.actors {
            v.push(ParseSc { mode: Mode::Single, sched: vec![], actors: vec![a.clone()], hash_seed: s.hash_seed });
        }
        if s.mode != Mode::After {
            v.push(ParseSc { mode: Mode::After, sched: vec![], ..s.clone() });
        }
        if s.actors.len() > 1 {
            for i in 0..s.actors.len() {
                let mut n = s.clone();
                n.actors.remove(i);
                v.push(n);
            }
        }
        let mut k = s.sched.len();
        while k > 0 {
            for at in (0..s.sched.len()).step_by(k) {
                let mut n = s.clone();
                n.sched.drain(at..(at + k).min(s.sched.len()));
                v.push(n);
            }
            k /= 2;
            if s.sched.len() / k.max(1) > 64 {
                break;
            }
        }
    }
    for i in 0..s.actors.len() {
        for a in parse::smaller(&s.actors[i]) {
            let mut n = s.clone();
            n.actors[i] = a;
            v.push(n);
        }
    }
    v
}

fn main() {
    driver::main::<ParseWorld>();
}
