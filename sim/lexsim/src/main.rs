//! Simulated lexers: character sources that fail, stall and lie about their
//! end, clients with arbitrary look-ahead, and their interleavings.
mod actor;
mod gen;
mod info;
mod json;
mod model;

use actor::{expand, same_seen, show_seen, Actor, Fault, Goal, Hook, Op, Run, Seen, Seg};
use serde::{Deserialize, Serialize};
use simcore::coop::Coop;
use simcore::driver::{self, Info, Outcome, World};
use simcore::entropy;
use simcore::panics;
use simcore::rng::{Fold, Rng};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Mode {
    Single,
    /// One client call at a time, the schedule says whose.
    Turns,
    /// A lexer's source makes calls on the other lexers while it is polled.
    Nested,
    /// A thread per lexer, switched at source polls and between calls.
    Threads,
    /// The first lexer's text, whole and cut at each of these points.
    Cuts(Vec<usize>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct LexSc {
    hash_seed: u64,
    mode: Mode,
    actors: Vec<Actor>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    sched: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Sc {
    Lex(LexSc),
    Json(json::Sc),
}

/// A run's results, cut loose from its thread.
struct Result_ {
    seen: Vec<Seen>,
    pulled: usize,
    bad: Option<(String, String)>,
    log: Fold,
    inter: Fold,
    states: Vec<u64>,
    counters: Vec<(&'static str, u64)>,
    steps: u64,
    trace: Vec<String>,
    scans: Vec<actor::Scan>,
}
struct Ship<T>(T);
unsafe impl<T> Send for Ship<T> {}

fn finish(mut r: Run) -> Result_ {
    r.finish_counters();
    Result_ {
        seen: r.seen,
        pulled: r.src.pulled.get(),
        bad: r.bad,
        log: r.log,
        inter: r.inter,
        states: r.states,
        counters: r.counters,
        steps: r.steps,
        trace: r.trace.unwrap_or_default(),
        scans: r.scans,
    }
}

fn alone(a: &Actor, me: usize, trace: bool) -> Result_ {
    let mut r = Run::new(a, me, Hook::None);
    if trace {
        r.trace = Some(vec![]);
    }
    while !r.finished() {
        r.step();
    }
    r.straight();
    finish(r)
}

/// The same lexer by itself, on a thread of its own with other hash keys.
fn alone_elsewhere(a: &Actor, me: usize, seed: u64) -> Result_ {
    entropy::seed(seed);
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || Ship(alone(a, me, false))).unwrap().join().unwrap()
    })
    .0
}

struct Turns {
    sched: Vec<u8>,
    pos: usize,
    order: Fold,
    nested: u64,
    switches: u64,
}

fn together(sc: &LexSc, trace: bool) -> (Vec<Result_>, Fold, u64, u64) {
    let n = sc.actors.len();
    if sc.mode == Mode::Threads {
        let coop = Arc::new(Coop::new(n, sc.sched.clone()));
        let rs: Vec<Result_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let coop = coop.clone();
                    let a = &sc.actors[i];
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(s, move || {
                            coop.enter(i);
                            let r = panics::catch(|| {
                                let mut r = Run::new(a, i, Hook::Coop(coop.clone()));
                                if trace {
                                    r.trace = Some(vec![]);
                                }
                                while !r.finished() {
                                    coop.yield_now(i);
                                    r.step();
                                }
                                finish(r)
                            });
                            coop.finish(i);
                            Ship(r)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join().unwrap().0 {
                    Ok(r) => r,
                    Err(_) => panic!("a simulated client died"),
                })
                .collect()
        });
        let (sw, order) = coop.summary();
        return (rs, Fold(order), sw, 0);
    }
    let runs: Rc<RefCell<Vec<Rc<RefCell<Run>>>>> = Rc::new(RefCell::new(vec![]));
    let turns = Rc::new(RefCell::new(Turns { sched: sc.sched.clone(), pos: 0, order: Fold::new(), nested: 0, switches: 0 }));
    let hook: Rc<dyn Fn(usize)> = {
        let runs = Rc::downgrade(&runs);
        let turns = turns.clone();
        Rc::new(move |me| {
            let who = {
                let mut t = turns.borrow_mut();
                let b = t.sched.get(t.pos).copied().unwrap_or(0);
                t.pos += 1;
                if b < 160 {
                    return;
                }
                b as usize
            };
            let other = match runs.upgrade() {
                Some(rs) => {
                    let rs = rs.borrow();
                    if rs.is_empty() {
                        return;
                    }
                    rs[who % rs.len()].clone()
                }
                None => return,
            };
            // Whoever is already in the middle of a call cannot take another.
            let run = other.try_borrow_mut();
            if let Ok(mut r) = run {
                if !r.finished() {
                    {
                        let mut t = turns.borrow_mut();
                        t.nested += 1;
                        t.order.add((me as u64) << 8 | r.me as u64);
                    }
                    r.step();
                }
            };
        })
    };
    for (i, a) in sc.actors.iter().enumerate() {
        let h = if sc.mode == Mode::Nested { Hook::Nested(hook.clone()) } else { Hook::None };
        let mut r = Run::new(a, i, h);
        if trace {
            r.trace = Some(vec![]);
        }
        runs.borrow_mut().push(Rc::new(RefCell::new(r)));
    }
    let list: Vec<_> = runs.borrow().clone();
    let mut cur = 0;
    loop {
        let alive: Vec<usize> = (0..n).filter(|&i| !list[i].borrow().finished()).collect();
        if alive.is_empty() {
            break;
        }
        {
            let mut t = turns.borrow_mut();
            let b = t.sched.get(t.pos).copied().unwrap_or(0);
            t.pos += 1;
            let was = cur;
            if b >= 96 || !alive.contains(&cur) {
                cur = alive[b as usize % alive.len()];
            }
            t.switches += (was != cur) as u64;
            t.order.add(cur as u64);
        }
        list[cur].borrow_mut().step();
    }
    drop(list);
    let (order, nested, switches) = {
        let t = turns.borrow();
        (t.order, t.nested, t.switches)
    };
    let rs: Vec<Rc<RefCell<Run>>> = runs.borrow_mut().drain(..).collect();
    drop(hook);
    let out = rs
        .into_iter()
        .map(|r| match Rc::try_unwrap(r) {
            Ok(r) => finish(r.into_inner()),
            Err(_) => panic!("a simulated client is still referenced"),
        })
        .collect();
    (out, order, switches, nested)
}

fn absorb(out: &mut Outcome, r: Result_, log: &mut Fold, inter: &mut Fold) {
    if let Some((c, m)) = r.bad {
        out.fail(&c, m);
    }
    log.add(r.log.0);
    inter.add(r.inter.0);
    out.states.extend(r.states);
    for (k, n) in r.counters {
        out.count(k, n);
    }
    out.steps += r.steps;
}

fn exec_lex(sc: &LexSc, trace: Option<&mut Vec<String>>) -> Outcome {
    let mut out = Outcome::default();
    let mut log = Fold::new();
    let mut inter = Fold::new();
    let mut lines = vec![];
    let tr = trace.is_some();
    match sc.mode {
        Mode::Single => {
            let r = alone(&sc.actors[0], 0, tr);
            lines.extend(r.trace.iter().cloned());
            absorb(&mut out, r, &mut log, &mut inter);
        }
        Mode::Cuts(ref cuts) => {
            let full = alone(&sc.actors[0], 0, false);
            let mut cut_errors = 0;
            let mut checked = 0;
            for &k in cuts {
                let mut a = sc.actors[0].clone();
                // Half of the cuts are sources that would resume.
                a.faults.push(if k % 2 == 0 { Fault::Eof { at: k } } else { Fault::Stall { at: k, n: 1 } });
                let r = alone(&a, 0, tr);
                out.count("fault:cut source", 1);
                if tr {
                    lines.push(format!("cut at {}:", k));
                    lines.extend(r.trace.iter().cloned());
                }
                for (i, f) in full.scans.iter().enumerate() {
                    if f.pulled > k || f.ended {
                        break;
                    }
                    checked += 1;
                    let same = r.scans.get(i).map_or(false, |c| same_seen(&c.seen, &f.seen));
                    if !same && r.bad.is_none() {
                        let got = r.scans.get(i).map_or("nothing".to_string(), |c| show_seen(&c.seen));
                        out.fail("prefix", format!("cut at {}: scan {} gave {}, but {} from the complete source before it had pulled that far", k, i, got, show_seen(&f.seen)));
                        break;
                    }
                }
                if matches!(r.scans.last().map(|s| &s.seen), Some(Seen::Err(_))) {
                    cut_errors += 1;
                }
                absorb(&mut out, r, &mut log, &mut inter);
                if out.violation.is_some() {
                    break;
                }
            }
            out.count("cut runs ending in an error", cut_errors);
            out.count("tokens compared with the complete source", checked);
            if out.violation.is_none() {
                absorb(&mut out, full, &mut log, &mut inter);
            }
        }
        _ => {
            let (rs, order, switches, nested) = together(sc, tr);
            log.add(order.0);
            inter.add(order.0);
            out.count("switches between lexers", switches);
            out.count("calls made from inside another lexer's source", nested);
            out.count(
                match sc.mode {
                    Mode::Turns => "runs taking turns",
                    Mode::Nested => "runs nested",
                    _ => "runs on several threads",
                },
                1,
            );
            for (i, r) in rs.into_iter().enumerate() {
                let by_itself = alone_elsewhere(&sc.actors[i], i, sc.hash_seed ^ 0x5555);
                lines.extend(r.trace.iter().cloned());
                if r.bad.is_none() && by_itself.bad.is_none() {
                    let k = (0..r.seen.len().max(by_itself.seen.len())).find(|&k| match (r.seen.get(k), by_itself.seen.get(k)) {
                        (Some(a), Some(b)) => !same_seen(a, b),
                        _ => true,
                    });
                    if let Some(k) = k {
                        let sh = |x: Option<&Seen>| x.map_or("nothing".to_string(), show_seen);
                        out.fail(
                            "interleave",
                            format!("lexer {} call {} gave {} among others but {} by itself", i, k, sh(r.seen.get(k)), sh(by_itself.seen.get(k))),
                        );
                    } else if r.pulled != by_itself.pulled {
                        out.fail("interleave", format!("lexer {} pulled {} characters among others but {} by itself", i, r.pulled, by_itself.pulled));
                    }
                    out.count("lexers compared with a run by themselves", 1);
                }
                let bad_alone = by_itself.bad.clone();
                let among = r.bad.is_some();
                absorb(&mut out, r, &mut log, &mut inter);
                if let (Some((c, m)), false) = (bad_alone, among) {
                    out.fail(&c, m);
                }
            }
        }
    }
    out.log = log.0;
    out.interleaving = inter.0;
    out.nontrivial = out.steps > 4;
    if let Some(t) = trace {
        *t = lines;
    }
    out
}

struct LexWorld;

impl World for LexWorld {
    type Sc = Sc;
    const STACK: usize = 8 << 20;

    fn info(prop: &str) -> Option<Info> {
        info::info(prop)
    }

    fn runs(prop: &str, thorough: bool) -> u64 {
        let quick = match prop {
            "C15" => 1_000_000,
            "C08" => 120_000,
            "C06" => 180_000,
            "C05" | "C04" => 400_000,
            _ => 800_000,
        };
        if thorough { quick * 40 } else { quick }
    }

    fn generate(prop: &str, r: &mut Rng, idx: u64) -> Sc {
        if prop == "C15" {
            return Sc::Json(json::generate(r));
        }
        let hash_seed = r.u64() >> 11;
        Sc::Lex(match prop {
            "C06" => {
                let n = r.range(2, 4);
                let mode = match r.below(3) {
                    0 => Mode::Turns,
                    1 => Mode::Nested,
                    _ => Mode::Threads,
                };
                let mut actors: Vec<Actor> = (0..n).map(|_| gen::actor(r, prop)).collect();
                // Sometimes the same text twice, sometimes with the same calls.
                if r.pct(30) {
                    actors[1].text = actors[0].text.clone();
                    if r.pct(50) {
                        actors[1] = actors[0].clone();
                    }
                }
                let chars: usize = actors.iter().map(|a| expand(&a.text).len()).sum();
                let m = chars.min(2000) * 2;
                let sched = (0..r.below(m + 20)).map(|_| r.below(256) as u8).collect();
                LexSc { hash_seed, mode, actors, sched }
            }
            "C08" => {
                let p = gen::profile(r, prop);
                let mut text = gen::text(r, &p);
                if r.pct(30) {
                    text.truncate(3);
                }
                let n = expand(&text).len();
                let cuts = if n <= 48 {
                    (0..=n).collect()
                } else {
                    let mut c: Vec<usize> = (0..24).map(|_| gen::place(r, &text)).collect();
                    c.sort();
                    c.dedup();
                    c
                };
                let g = *r.pick(&[Goal::Auto, Goal::Rand, Goal::Oper]);
                let ops = if r.pct(70) { vec![Op::Drain(g, 400)] } else { (0..r.geometric(6, 30)).map(|_| Op::Read(*r.pick(&[Goal::Rand, Goal::Oper]))).collect() };
                LexSc { hash_seed, mode: Mode::Cuts(cuts), actors: vec![Actor { text, faults: vec![], ops, mem: false }], sched: vec![] }
            }
            // At every rate of runs some fall to each worker.
            "C01" if idx % 8191 == 17 => LexSc { hash_seed, mode: Mode::Single, actors: vec![gen::marathon(r)], sched: vec![] },
            _ => LexSc { hash_seed, mode: Mode::Single, actors: vec![gen::actor(r, prop)], sched: vec![] },
        })
    }

    fn hash_seed(sc: &Sc) -> u64 {
        match sc {
            Sc::Lex(s) => s.hash_seed,
            Sc::Json(_) => 1,
        }
    }

    fn exec(_prop: &str, sc: &Sc) -> Outcome {
        match sc {
            Sc::Lex(s) => exec_lex(s, None),
            Sc::Json(s) => json::exec(s, None),
        }
    }

    fn shrink(sc: &Sc) -> Vec<Sc> {
        match sc {
            Sc::Lex(s) => shrink_lex(s).into_iter().map(Sc::Lex).collect(),
            Sc::Json(s) => json::shrink(s).into_iter().map(Sc::Json).collect(),
        }
    }

    fn size(sc: &Sc) -> usize {
        match sc {
            Sc::Lex(s) => size_lex(s),
            Sc::Json(s) => json::size(s),
        }
    }

    fn explain(_prop: &str, sc: &Sc) -> Vec<String> {
        let mut t = vec![];
        match sc {
            Sc::Lex(s) => {
                let mut head = vec![];
                for (i, a) in s.actors.iter().enumerate() {
                    let p = a.plan();
                    let mut txt: String = p.text.iter().collect();
                    if txt.chars().count() > 300 {
                        txt = txt.chars().take(300).collect::<String>() + "…";
                    }
                    head.push(format!("lexer {}: source {:?} ({} characters), faults {:?}", i, txt, p.text.len(), a.faults));
                }
                let o = exec_lex(s, Some(&mut t));
                let n = t.len();
                if n > 200 {
                    t.drain(..n - 200);
                }
                t.splice(0..0, head);
                if let Some((c, m)) = o.violation {
                    t.push(format!("broken: {}: {}", c, m));
                }
            }
            Sc::Json(s) => {
                t.push(format!("document {:?}", s.doc));
                let mut l = vec![];
                let o = json::exec(s, Some(&mut l));
                t.extend(l);
                if let Some((c, m)) = o.violation {
                    t.push(format!("broken: {}: {}", c, m));
                }
            }
        }
        t
    }
}

fn fault_at(f: &mut Fault) -> Option<&mut usize> {
    match f {
        Fault::Eof { at } | Fault::Stall { at, .. } | Fault::Panic { at } | Fault::Flip { at, .. } | Fault::Drop { at } | Fault::Dup { at } | Fault::Swap { at } => Some(at),
        Fault::PanicAfterEnd => None,
    }
}

/// Replace segments i..j, moving faults and cuts that lie behind them.
fn splice(s: &LexSc, ai: usize, i: usize, j: usize, with: Vec<Seg>) -> LexSc {
    let mut n = s.clone();
    let a = &mut n.actors[ai];
    let start = expand(&a.text[..i]).len();
    let old = expand(&a.text[i..j]).len();
    let new = expand(&with).len();
    let mv = |at: usize| {
        if at >= start + old {
            at - old + new
        } else if at > start + new {
            start + new
        } else {
            at
        }
    };
    for f in a.faults.iter_mut() {
        if let Some(at) = fault_at(f) {
            *at = mv(*at);
        }
    }
    a.text.splice(i..j, with);
    if let Mode::Cuts(ref mut c) = n.mode {
        for k in c.iter_mut() {
            *k = mv(*k);
        }
        c.dedup();
    }
    n
}

fn shrink_lex(s: &LexSc) -> Vec<LexSc> {
    let mut v = vec![];
    if s.mode != Mode::Single && !matches!(s.mode, Mode::Cuts(_)) {
        let mut n = s.clone();
        n.mode = Mode::Single;
        n.sched.clear();
        for a in &s.actors {
            n.actors = vec![a.clone()];
            v.push(n.clone());
        }
        if s.actors.len() > 1 {
            for i in 0..s.actors.len() {
                let mut n = s.clone();
                n.actors.remove(i);
                v.push(n);
            }
        }
        let mut k = s.sched.len();
        while k > 0 {
            for at in (0..s.sched.len()).step_by(k) {
                let mut n = s.clone();
                n.sched.drain(at..(at + k).min(s.sched.len()));
                v.push(n);
            }
            k /= 2;
            if s.sched.len() / k.max(1) > 64 {
                break;
            }
        }
    }
    if let Mode::Cuts(ref c) = s.mode {
        for &k in c {
            if c.len() > 1 {
                let mut n = s.clone();
                n.mode = Mode::Cuts(vec![k]);
                v.push(n);
            } else {
                // As a plain cut source.
                let mut n = s.clone();
                n.mode = Mode::Single;
                n.actors[0].faults.push(Fault::Eof { at: k });
                v.push(n);
            }
        }
    }
    for ai in 0..s.actors.len() {
        let a = &s.actors[ai];
        // Text.
        let n = a.text.len();
        let mut k = n;
        while k > 0 {
            for at in (0..n).step_by(k) {
                v.push(splice(s, ai, at, (at + k).min(n), vec![]));
            }
            k /= 2;
        }
        for i in 0..n {
            match &a.text[i] {
                Seg::R(t, m) => {
                    for &c in &[0u32, 1, 2, 3, 4, 5, 8, 16, 256, 4096, 65536, m / 2, m - m / 8, m.saturating_sub(16), m.saturating_sub(1)] {
                        if c < *m {
                            v.push(splice(s, ai, i, i + 1, vec![Seg::R(t.clone(), c)]));
                        }
                    }
                    if *m <= 4 {
                        v.push(splice(s, ai, i, i + 1, vec![Seg::S(t.repeat(*m as usize))]));
                    }
                }
                Seg::S(t) => {
                    let cs: Vec<char> = t.chars().collect();
                    let mut k = cs.len() / 2;
                    while k > 0 {
                        for at in (0..cs.len()).step_by(k) {
                            let mut d = cs.clone();
                            d.drain(at..(at + k).min(cs.len()));
                            v.push(splice(s, ai, i, i + 1, vec![Seg::S(d.into_iter().collect())]));
                        }
                        k /= 2;
                    }
                    for j in 0..cs.len() {
                        let simple = match cs[j] {
                            c if c as u32 > 127 => 'a',
                            'b'..='z' | 'A'..='Z' => 'a',
                            '1'..='9' => '0',
                            _ => continue,
                        };
                        let mut d = cs.clone();
                        d[j] = simple;
                        v.push(splice(s, ai, i, i + 1, vec![Seg::S(d.into_iter().collect())]));
                    }
                }
            }
        }
        // Faults.
        for i in 0..a.faults.len() {
            let mut n = s.clone();
            n.actors[ai].faults.remove(i);
            v.push(n);
            if let Fault::Stall { at, n: m } = a.faults[i] {
                let mut n = s.clone();
                n.actors[ai].faults[i] = Fault::Eof { at };
                v.push(n);
                if m > 1 {
                    let mut n = s.clone();
                    n.actors[ai].faults[i] = Fault::Stall { at, n: 1 };
                    v.push(n);
                }
            }
            // Apply a corruption to the text itself.
            if matches!(a.faults[i], Fault::Flip { .. } | Fault::Drop { .. } | Fault::Dup { .. } | Fault::Swap { .. }) {
                let mut only = a.clone();
                only.faults = vec![a.faults[i].clone()];
                let t = only.plan().text;
                if t.len() < 400 {
                    let mut n = s.clone();
                    n.actors[ai].faults.remove(i);
                    n.actors[ai].text = vec![Seg::S(t.into_iter().collect())];
                    v.push(n);
                }
            }
        }
        // Calls.
        let n = a.ops.len();
        let mut k = n;
        while k > 0 {
            for at in (0..n).step_by(k) {
                let mut x = s.clone();
                x.actors[ai].ops.drain(at..(at + k).min(n));
                v.push(x);
            }
            k /= 2;
        }
        for i in 0..n {
            let simpler = match a.ops[i] {
                Op::Drain(g, m) if m > 1 => vec![Op::Read(g), Op::Drain(g, m / 2)],
                Op::Drain(g, _) => vec![Op::Read(g)],
                Op::Skip(g) | Op::Peek(g) => vec![Op::Read(g)],
                Op::Read(Goal::Auto) => vec![Op::Read(Goal::Oper), Op::Read(Goal::Rand)],
                _ => vec![],
            };
            for o in simpler {
                let mut x = s.clone();
                x.actors[ai].ops[i] = o;
                v.push(x);
            }
        }
        if a.mem {
            let mut n = s.clone();
            n.actors[ai].mem = false;
            v.push(n);
        }
    }
    v
}

fn size_lex(s: &LexSc) -> usize {
    let mut n = match s.mode {
        Mode::Single => 0,
        Mode::Turns => 20,
        Mode::Nested => 30,
        Mode::Threads => 40,
        Mode::Cuts(ref c) => 30 + 10 * c.len(),
    } + s.sched.len();
    for a in &s.actors {
        n += 20 + a.mem as usize;
        for g in &a.text {
            n += match g {
                Seg::S(t) => 2 + t.chars().map(|c| match c {
                    'a' | '0' => 4,
                    c if (c as u32) < 128 => 5,
                    _ => 6,
                }).sum::<usize>(),
                Seg::R(t, m) => 3 + t.chars().count() * 6 * *m as usize,
            };
        }
        for f in &a.faults {
            n += match f {
                Fault::Stall { n, .. } => 12 + *n as usize,
                Fault::Eof { .. } => 8,
                _ => 10,
            };
        }
        for o in &a.ops {
            n += match o {
                Op::Drain(_, m) => 8 + *m as usize,
                Op::Skip(Goal::Auto) | Op::Peek(Goal::Auto) => 8,
                Op::Read(Goal::Auto) => 6,
                Op::Read(_) => 5,
                _ => 7,
            };
        }
    }
    n
}

fn main() {
    driver::main::<LexWorld>()
}
