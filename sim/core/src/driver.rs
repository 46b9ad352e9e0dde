//! Generates scenarios from one seed, runs them in isolated worker processes,
//! confirms, minimises and reports violations, and writes the evidence file.
//!
//! A scenario is a complete, explicit plan (texts, faults, client operations,
//! schedule, hash seed); running it is a pure function of it and the code.
use crate::rng::{mix, Rng};
use crate::{entropy, panics};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
const CHUNK: u64 = 16;
const HANG: Duration = Duration::from_secs(60);
const EXEC_TIMEOUT: Duration = Duration::from_secs(20);

#[derive(Default)]
pub struct Outcome {
    /// (class, message): the first broken invariant.
    pub violation: Option<(String, String)>,
    /// Hash of everything observed.
    pub log: u64,
    /// Simulated time: source polls plus client operations plus scheduler turns.
    pub steps: u64,
    pub counters: Vec<(&'static str, u64)>,
    /// Hash identifying the interleaving (order of operations, faults, turns).
    pub interleaving: u64,
    /// Hashes of abstract states passed through.
    pub states: Vec<u64>,
    pub nontrivial: bool,
}
impl Outcome {
    pub fn count(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            self.counters.push((k, n));
        }
    }
    pub fn fail(&mut self, class: &str, msg: String) {
        if self.violation.is_none() {
            self.violation = Some((class.to_string(), msg));
        }
    }
}

pub struct Info {
    pub title: &'static str,
    pub rule: &'static str,
    pub oracle: &'static str,
    pub assumptions: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// Classes of broken invariants that contradict this property.
    pub classes: &'static [&'static str],
    /// Counters that must not stay at zero over a whole check.
    pub must_fire: &'static [&'static str],
}

pub trait World {
    type Sc: Serialize + DeserializeOwned + Clone + Send + 'static;
    const STACK: usize;
    fn info(prop: &str) -> Option<Info>;
    fn runs(prop: &str, thorough: bool) -> u64;
    fn generate(prop: &str, rng: &mut Rng, idx: u64) -> Self::Sc;
    fn hash_seed(sc: &Self::Sc) -> u64;
    fn exec(prop: &str, sc: &Self::Sc) -> Outcome;
    /// Simpler scenarios to try, most drastic first.
    fn shrink(sc: &Self::Sc) -> Vec<Self::Sc>;
    fn size(sc: &Self::Sc) -> usize;
    /// Human-readable account of a run, for replay files.
    fn explain(prop: &str, sc: &Self::Sc) -> Vec<String>;
}

#[derive(Serialize, Deserialize, Clone)]
struct Replay<S> {
    property: String,
    seed: u64,
    run: u64,
    build: String,
    class: String,
    message: String,
    log: String,
    /// Scenarios run in order in one process; the last one shows the violation.
    session: Vec<S>,
    #[serde(default)]
    trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
struct ExecResult {
    class: Option<String>,
    message: String,
    log: String,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerReport {
    runs: u64,
    steps: u64,
    nontrivial: u64,
    counters: BTreeMap<String, u64>,
    log_xor: u64,
    violation: Option<(u64, String, String)>,
    samples: Vec<serde_json::Value>,
    other_classes: BTreeMap<String, u64>,
    finished: bool,
}

fn scenario<W: World>(prop: &str, seed: u64, idx: u64) -> W::Sc {
    let mut h = seed;
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    let mut rng = Rng::new(mix(h ^ mix(idx)));
    W::generate(prop, &mut rng, idx)
}

/// Run one scenario on a thread of its own (fresh thread-local state, hash keys
/// from the scenario).
fn run_one<W: World>(prop: &str, sc: &W::Sc) -> Outcome {
    entropy::seed(W::hash_seed(sc));
    let sc = sc.clone();
    let prop = prop.to_string();
    let h = std::thread::Builder::new()
        .stack_size(W::STACK)
        .spawn(move || match panics::catch(|| W::exec(&prop, &sc)) {
            Ok(o) => o,
            Err(c) => {
                let mut o = Outcome::default();
                let m = match c {
                    panics::Caught::Injected(s) => format!("injected failure {} escaped the simulator", s.0),
                    panics::Caught::Foreign(m) => m,
                };
                o.fail("HARNESS", m);
                o
            }
        })
        .expect("cannot start a thread");
    h.join().expect("simulator thread died")
}

fn relevant<W: World>(prop: &str, class: &str) -> bool {
    class == "HARNESS" || class == "nondeterminism" || W::info(prop).map_or(false, |i| i.classes.contains(&class))
}

/// The runs of one shard, in order.
fn shard_runs(shard: u64, total: u64) -> impl Iterator<Item = u64> {
    (0..total).filter(move |i| i / CHUNK % SHARDS == shard)
}

/// Open entries for this property in the known-findings file:
/// `open: property=<id> class=<class> match=<text in the message> -- <what fails>`
fn read_known(path: Option<String>, prop: &str) -> Vec<String> {
    path.and_then(|p| fs::read_to_string(p).ok())
        .map(|t| t.lines().map(|l| l.trim().to_string()).filter(|l| l.starts_with(&format!("open: property={} ", prop))).collect())
        .unwrap_or_default()
}

fn is_known(known: &[String], class: &str, message: &str) -> bool {
    known.iter().any(|k| {
        let want_class = k.split("class=").nth(1).and_then(|x| x.split(' ').next()).unwrap_or("?");
        let want = k.split("match=").nth(1).and_then(|x| x.split(" -- ").next()).unwrap_or("\u{0}");
        want_class == class && message.contains(want)
    })
}

struct Args(HashMap<String, String>);
impl Args {
    fn parse() -> Args {
        let mut m = HashMap::new();
        let mut it = std::env::args().skip(2);
        while let Some(k) = it.next() {
            let k = k.trim_start_matches("--").to_string();
            let v = it.next().unwrap_or_default();
            m.insert(k, v);
        }
        Args(m)
    }
    fn s(&self, k: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| die(&format!("missing --{}", k)))
    }
    fn opt(&self, k: &str) -> Option<String> {
        self.0.get(k).cloned()
    }
    fn n(&self, k: &str) -> u64 {
        self.s(k).parse().unwrap_or_else(|_| die(&format!("bad --{}", k)))
    }
}

fn die(m: &str) -> ! {
    eprintln!("harness error: {}", m);
    std::process::exit(2)
}

pub fn main<W: World>() {
    panics::install();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let args = Args::parse();
    match &cmd[..] {
        "worker" => worker::<W>(&args),
        "exec" => exec::<W>(&args),
        "check" => check::<W>(&args),
        "replay" => replay::<W>(&args),
        "determinism" => determinism::<W>(&args),
        "dump" => {
            let sc = scenario::<W>(&args.s("prop"), args.n("seed"), args.n("run"));
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            let o = run_one::<W>(&args.s("prop"), &sc);
            println!("{:?}", o.violation);
            for l in W::explain(&args.s("prop"), &sc) {
                println!("{}", l);
            }
        }
        _ => die("usage: check|worker|exec|replay|determinism|dump"),
    }
}

// ---------------------------------------------------------------- worker

fn worker<W: World>(args: &Args) {
    let prop = args.s("prop");
    let seed = args.n("seed");
    let total = args.n("total");
    let shards: Vec<u64> = args.s("shards").split(',').map(|x| x.parse().unwrap()).collect();
    let dir = PathBuf::from(args.s("dir"));
    let name = args.s("name");
    let until = Instant::now() + Duration::from_secs(args.n("secs"));
    let all = args.opt("all").is_some();
    let known = read_known(args.opt("known"), &prop);
    let mut rep = WorkerReport::default();
    let mut inter: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut counters: HashMap<&'static str, u64> = HashMap::new();
    let progress = fs::File::create(dir.join(format!("{}.progress", name))).unwrap();
    use std::os::unix::fs::FileExt;
    'outer: for &shard in &shards {
        for idx in shard_runs(shard, total) {
            if rep.runs % 64 == 0 && Instant::now() > until {
                break 'outer;
            }
            let _ = progress.write_at(&(idx + 1).to_le_bytes(), 0);
            let sc = scenario::<W>(&prop, seed, idx);
            let o = run_one::<W>(&prop, &sc);
            rep.runs += 1;
            rep.steps += o.steps;
            rep.log_xor ^= mix(o.log ^ mix(idx));
            for (k, n) in &o.counters {
                *counters.entry(k).or_insert(0) += n;
            }
            if inter.len() < 4_000_000 {
                inter.insert(o.interleaving);
            }
            if states.len() < 1_000_000 {
                states.extend(o.states.iter());
            }
            if o.nontrivial {
                rep.nontrivial += 1;
                if rep.samples.len() < 2 && idx % 7 == shard % 7 {
                    rep.samples.push(serde_json::json!({"run": idx, "scenario": trim(serde_json::to_value(&sc).unwrap())}));
                }
            }
            if let Some((class, msg)) = o.violation {
                if is_known(&known, &class, &msg) {
                    *rep.other_classes.entry("known finding".into()).or_insert(0) += 1;
                } else if relevant::<W>(&prop, &class) || all {
                    rep.violation = Some((idx, class, msg));
                    break 'outer;
                } else {
                    *rep.other_classes.entry(class).or_insert(0) += 1;
                }
            }
        }
    }
    rep.counters = counters.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    rep.finished = true;
    let dump = |f: &str, s: &HashSet<u64>| {
        let mut b = Vec::with_capacity(s.len() * 8);
        for x in s {
            b.extend_from_slice(&x.to_le_bytes());
        }
        fs::write(dir.join(f), b).unwrap();
    };
    dump(&format!("{}.inter", name), &inter);
    dump(&format!("{}.states", name), &states);
    fs::write(dir.join(format!("{}.json", name)), serde_json::to_vec(&rep).unwrap()).unwrap();
}

/// Keep samples readable: long strings and arrays are cut.
fn trim(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::*;
    match v {
        String(s) if s.chars().count() > 160 => String(s.chars().take(160).collect::<std::string::String>() + "…"),
        Array(a) => {
            let n = a.len();
            let mut a: Vec<_> = a.into_iter().take(40).map(trim).collect();
            if n > 40 {
                a.push(String(format!("… {} more", n - 40)));
            }
            Array(a)
        }
        Object(m) => Object(m.into_iter().map(|(k, v)| (k, trim(v))).collect()),
        v => v,
    }
}

// ---------------------------------------------------------------- exec

fn exec<W: World>(args: &Args) {
    let r: Replay<W::Sc> = serde_json::from_slice(&fs::read(args.s("file")).unwrap_or_else(|e| die(&e.to_string())))
        .unwrap_or_else(|e| die(&e.to_string()));
    let mut res = ExecResult::default();
    for sc in &r.session {
        let o = run_one::<W>(&r.property, sc);
        res = ExecResult { class: None, message: String::new(), log: format!("{:016x}", o.log) };
        if let Some((c, m)) = o.violation {
            res.class = Some(c);
            res.message = m;
        }
    }
    println!("{}", serde_json::to_string(&res).unwrap());
}

fn wait_timeout(child: &mut Child, t: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if start.elapsed() > t {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
    }
}

/// Run a session in a fresh process; deaths and hangs become classes.
fn exec_fresh<S: Serialize + Clone>(exe: &Path, dir: &Path, prop: &str, session: &[S]) -> ExecResult {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    let f = dir.join(format!("exec{}.json", n));
    let r = Replay {
        property: prop.to_string(),
        seed: 0,
        run: 0,
        build: String::new(),
        class: String::new(),
        message: String::new(),
        log: String::new(),
        session: session.to_vec(),
        trace: vec![],
    };
    fs::write(&f, serde_json::to_vec(&r).unwrap()).unwrap();
    let out = dir.join(format!("exec{}.out", n));
    let mut child = Command::new(exe)
        .args(["exec", "--file"])
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(fs::File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(&format!("cannot run {:?}: {}", exe, e)));
    let limit = EXEC_TIMEOUT + Duration::from_millis(10 * session.len() as u64);
    let status = wait_timeout(&mut child, limit);
    let text = fs::read_to_string(&out).unwrap_or_default();
    let _ = fs::remove_file(&f);
    let _ = fs::remove_file(&out);
    match status {
        None => ExecResult { class: Some("hang".into()), message: format!("no answer within {:?}", limit), log: "hang".into() },
        Some(s) => match serde_json::from_str(text.trim()) {
            Ok(r) => r,
            Err(_) => {
                use std::os::unix::process::ExitStatusExt;
                let m = match s.signal() {
                    Some(sig) => format!("the process died of signal {} (abort, stack overflow or runaway allocation)", sig),
                    None => format!("the process ended with {}", s),
                };
                ExecResult { class: Some("abort".into()), message: m, log: "abort".into() }
            }
        },
    }
}

// ---------------------------------------------------------------- minimise

fn minimise<W: World>(exe: &Path, dir: &Path, prop: &str, session: Vec<W::Sc>, class: &str, budget: Duration) -> Vec<W::Sc> {
    let start = Instant::now();
    let fails = |s: &[W::Sc]| exec_fresh(exe, dir, prop, s).class.as_deref() == Some(class);
    let mut cur = session;
    // Fewer scenarios first.
    let mut chunk = cur.len() / 2;
    while chunk > 0 && cur.len() > 1 && start.elapsed() < budget {
        let mut i = 0;
        while i + 1 < cur.len() && start.elapsed() < budget {
            let end = (i + chunk).min(cur.len() - 1);
            if i >= end {
                break;
            }
            let mut cand = cur.clone();
            cand.drain(i..end);
            if fails(&cand) {
                cur = cand;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    // Then simpler scenarios, candidates tried eight at a time.
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        for k in (0..cur.len()).rev() {
            'again: loop {
                let cands: Vec<W::Sc> = W::shrink(&cur[k]);
                let here = W::size(&cur[k]);
                let cands: Vec<W::Sc> = cands.into_iter().filter(|c| W::size(c) < here).collect();
                for group in cands.chunks(8) {
                    if start.elapsed() > budget {
                        return cur;
                    }
                    let verdicts: Vec<bool> = std::thread::scope(|s| {
                        let hs: Vec<_> = group
                            .iter()
                            .map(|c| {
                                let mut cand = cur.clone();
                                cand[k] = c.clone();
                                s.spawn(move || exec_fresh(exe, dir, prop, &cand).class.as_deref() == Some(class))
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect()
                    });
                    if let Some(i) = verdicts.iter().position(|&v| v) {
                        cur[k] = group[i].clone();
                        progress = true;
                        continue 'again;
                    }
                }
                break;
            }
        }
    }
    cur
}

// ---------------------------------------------------------------- check

struct Slot {
    name: String,
    build: String,
    exe: PathBuf,
    shards: Vec<u64>,
    total: u64,
    child: Child,
    seen: u64,
    since: Instant,
    done: bool,
}

fn spawn_worker(exe: &Path, name: &str, prop: &str, seed: u64, total: u64, shards: &[u64], dir: &Path, secs: u64, known: &str) -> Child {
    let list = shards.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(",");
    Command::new(exe)
        .args(["worker", "--prop", prop, "--seed", &seed.to_string(), "--total", &total.to_string(), "--shards", &list])
        .args(["--name", name, "--secs", &secs.to_string(), "--known", known, "--dir"])
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(&format!("cannot run {:?}: {}", exe, e)))
}

fn read_progress(dir: &Path, name: &str) -> u64 {
    let b = fs::read(dir.join(format!("{}.progress", name))).unwrap_or_default();
    if b.len() >= 8 { u64::from_le_bytes(b[..8].try_into().unwrap()) } else { 0 }
}

fn parse_exes(args: &Args) -> Vec<(String, PathBuf)> {
    args.s("exes")
        .split(',')
        .map(|x| {
            let (n, p) = x.split_once('=').unwrap_or_else(|| die("bad --exes"));
            (n.to_string(), PathBuf::from(p))
        })
        .collect()
}

/// Three quarters of the shards run the first build, the rest the second.
fn build_of(shard: u64, n: usize) -> usize {
    if n > 1 && shard % 4 == 3 { 1 } else { 0 }
}

/// Only one run in this many is repeated by the slow build's workers.
const SLOW: u64 = 20;

fn check<W: World>(args: &Args) {
    let t0 = Instant::now();
    let prop = args.s("prop");
    let seed = args.n("seed");
    let tier = args.s("tier");
    let thorough = tier == "thorough";
    let info = W::info(&prop).unwrap_or_else(|| die("unknown property"));
    let total = args.opt("runs").map_or_else(|| W::runs(&prop, thorough), |r| r.parse().unwrap());
    let secs: u64 = args.opt("secs").map_or(if thorough { 6 * 3600 } else { 300 }, |s| s.parse().unwrap());
    let exes = parse_exes(args);
    let dir = PathBuf::from(args.s("scratch"));
    fs::create_dir_all(&dir).unwrap();
    println!("seed {} property {} tier {} runs {}", seed, prop, tier, total);

    let known_path = args.opt("known").unwrap_or_default();
    let known = read_known(args.opt("known"), &prop);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop, k.splitn(3, ' ').nth(2).unwrap_or(""));
    }

    let mut plan: Vec<(usize, u64, u64)> = (0..SHARDS).map(|s| (build_of(s, exes.len()), s, total)).collect();
    if exes.len() > 2 {
        // The slow build repeats a small part of the runs.
        plan.push((2, 2, total / SLOW));
        plan.push((2, 6, total / SLOW));
    }
    let mut slots: Vec<Slot> = plan
        .into_iter()
        .map(|(b, s, total)| {
            let (bname, exe) = &exes[b];
            let name = format!("{}{}", &bname[..1], s);
            Slot {
                child: spawn_worker(exe, &name, &prop, seed, total, &[s], &dir, secs, &known_path),
                name,
                build: bname.clone(),
                exe: exe.clone(),
                shards: vec![s],
                total,
                seen: 0,
                since: Instant::now(),
                done: false,
            }
        })
        .collect();

    // (run, slot index, class, message)
    let mut found: Option<(u64, usize, String, String)> = None;
    while slots.iter().any(|s| !s.done) && found.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..slots.len() {
            let s = &mut slots[i];
            if s.done {
                continue;
            }
            let p = read_progress(&dir, &s.name);
            if p != s.seen {
                s.seen = p;
                s.since = Instant::now();
            }
            if let Ok(Some(_)) = s.child.try_wait() {
                s.done = true;
                let p = read_progress(&dir, &s.name);
                match fs::read(dir.join(format!("{}.json", s.name))).ok().and_then(|b| serde_json::from_slice::<WorkerReport>(&b).ok()) {
                    Some(r) if r.finished => {
                        if let Some((idx, class, msg)) = r.violation {
                            if found.as_ref().map_or(true, |f| idx < f.0) {
                                found = Some((idx, i, class, msg));
                            }
                        }
                    }
                    _ if p > 0 => found = Some((p - 1, i, "abort".into(), "the process died".into())),
                    _ if s.total == 0 => {}
                    _ => die("a worker died before its first run"),
                }
            } else if s.since.elapsed() > HANG {
                let _ = s.child.kill();
                let _ = s.child.wait();
                s.done = true;
                if s.seen == 0 {
                    die("a worker never started");
                }
                found = Some((s.seen - 1, i, "hang".into(), format!("no progress for {:?}", HANG)));
            }
        }
    }
    for s in slots.iter_mut() {
        if !s.done {
            let _ = s.child.kill();
            let _ = s.child.wait();
        }
    }
    let run_wall = t0.elapsed().as_secs_f64();

    // Determinism: some of the runs again, in one fresh process with other shards mixed in.
    let mut recheck = (0u64, 0u64);
    if found.is_none() {
        let n = 512.min(total);
        let mut xors = vec![];
        for (k, shards) in [vec![0u64, 1, 2, 4, 5, 6, 3, 7], vec![7u64, 3, 6, 5, 4, 2, 1, 0]].iter().enumerate() {
            let name = format!("d{}", k);
            let mut c = spawn_worker(&exes[0].1, &name, &prop, seed, n, shards, &dir, 60, &known_path);
            let _ = wait_timeout(&mut c, Duration::from_secs(120));
            let r: Option<WorkerReport> = fs::read(dir.join(format!("{}.json", name))).ok().and_then(|b| serde_json::from_slice(&b).ok());
            match r {
                Some(r) => {
                    recheck.0 += r.runs;
                    xors.push((r.runs, r.log_xor));
                }
                None => die("determinism recheck failed to run"),
            }
        }
        if xors[0].0 == xors[1].0 && xors[0].1 != xors[1].1 {
            recheck.1 = 1;
            if !info.classes.contains(&"nondeterminism") {
                eprintln!("note: the same runs gave different logs in a different order; results may not replay");
            } else {
                // Which run?
                for idx in 0..n {
                    let sc = scenario::<W>(&prop, seed, idx);
                    let a = exec_fresh(&exes[0].1, &dir, &prop, std::slice::from_ref(&sc));
                    let b = exec_fresh(&exes[0].1, &dir, &prop, std::slice::from_ref(&sc));
                    if a.log != b.log || idx + 1 == n {
                        found = Some((idx, 0, "nondeterminism".into(), format!("the same scenario gave two different histories ({} and {})", a.log, b.log)));
                        break;
                    }
                }
            }
        }
    }

    // Gather coverage.
    let mut runs = 0;
    let mut steps = 0;
    let mut nontrivial = 0;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut inter: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut by_build: BTreeMap<String, u64> = BTreeMap::new();
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    for s in &slots {
        if let Some(r) = fs::read(dir.join(format!("{}.json", s.name))).ok().and_then(|b| serde_json::from_slice::<WorkerReport>(&b).ok()) {
            runs += r.runs;
            steps += r.steps;
            nontrivial += r.nontrivial;
            *by_build.entry(s.build.clone()).or_insert(0) += r.runs;
            for (k, v) in r.counters {
                *counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in r.other_classes {
                *other.entry(k).or_insert(0) += v;
            }
            if samples.len() < 4 {
                samples.extend(r.samples);
            }
            for (set, ext) in [(&mut inter, "inter"), (&mut states, "states")] {
                for c in fs::read(dir.join(format!("{}.{}", s.name, ext))).unwrap_or_default().chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }

    let mut violations = 0;
    let mut exit = 0;
    let mut silent: Vec<&str> = vec![];
    if let Some((idx, si, class, msg)) = found {
        let exe = slots[si].exe.clone();
        let build = slots[si].build.clone();
        let (code, path) = report_violation::<W>(args, &prop, seed, idx, &slots[si].shards, slots[si].total, &exe, &build, &dir, &class, &msg, &known);
        if code == 1 {
            violations = 1;
            println!("VIOLATION property={} replay={}", prop, path.display());
        }
        exit = code;
    } else {
        for m in info.must_fire {
            if counters.get(*m).copied().unwrap_or(0) == 0 && runs >= 1000 {
                eprintln!("warning: probe '{}' never fired in {} runs", m, runs);
                silent.push(*m);
            }
        }
    }

    let faults: BTreeMap<&String, u64> = counters.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(k, v)| (k, *v)).collect();
    let probes: BTreeMap<&String, u64> = counters.iter().filter(|(k, _)| !k.starts_with("fault:")).map(|(k, v)| (k, *v)).collect();
    let hours = run_wall / 3600.0;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial.min(inter.len() as u64),
            "rule": info.rule,
            "samples": samples,
            "oracle": info.oracle,
            "planned_runs": total,
            "nontrivial_runs": nontrivial,
            "distinct_interleavings": inter.len(),
            "distinct_states": states.len(),
            "measure": "interleaving: hash of the order of operations, results' kinds, faults fired and scheduler turns; state: hash of (buffered tokens, kind of last result, fault just met, at end, position class)",
            "simulated_steps": steps,
            "simulated_time": "the code has no clock; one step is one source poll, client call or scheduler turn",
            "runs_per_hour": (runs as f64 / hours).round(),
            "seeds_per_hour": (runs as f64 / hours).round(),
            "faults_fired": faults,
            "probes": probes,
            "probes_that_never_fired": silent,
            "runs_by_build": by_build,
            "determinism_rechecks": recheck.0,
            "determinism_mismatches": recheck.1,
            "observations_outside_this_property": other,
            "real_components": info.real,
            "stub_components": info.stub,
        },
        "assumptions": info.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evp = PathBuf::from(args.s("evidence"));
    if let Some(p) = evp.parent() {
        let _ = fs::create_dir_all(p);
    }
    fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap_or_else(|e| die(&e.to_string()));
    println!(
        "{} runs, {} steps, {} interleavings, {} states, {:.1} s{}",
        runs, steps, inter.len(), states.len(), t0.elapsed().as_secs_f64(),
        if exit == 0 { ": held" } else { "" }
    );
    std::process::exit(exit)
}

fn report_violation<W: World>(
    args: &Args, prop: &str, seed: u64, idx: u64, shards: &[u64], total: u64, exe: &Path, build: &str, dir: &Path,
    class: &str, msg: &str, known: &[String],
) -> (i32, PathBuf) {
    eprintln!("run {} ({} build): {}: {}", idx, build, class, msg);
    let sc = scenario::<W>(prop, seed, idx);
    let mut session = vec![sc.clone()];
    let mut class = class.to_string();
    let mut reproduced = true;
    if class != "nondeterminism" {
        let r = exec_fresh(exe, dir, prop, &session);
        let hit = |r: &ExecResult| r.class.as_ref().map_or(false, |c| relevant::<W>(prop, c));
        reproduced = hit(&r);
        if !reproduced {
            // Something earlier in the same process matters: replay a growing tail of it.
            let before: Vec<u64> = shards.iter().flat_map(|&s| shard_runs(s, total)).take_while(|&i| i != idx).collect();
            let mut n = 4;
            loop {
                let tail = &before[before.len().saturating_sub(n)..];
                let mut cand: Vec<W::Sc> = tail.iter().map(|&i| scenario::<W>(prop, seed, i)).collect();
                cand.push(sc.clone());
                let r = exec_fresh(exe, dir, prop, &cand);
                if hit(&r) {
                    class = r.class.unwrap();
                    session = cand;
                    reproduced = true;
                    break;
                }
                if n >= before.len() || n > 200_000 {
                    break;
                }
                n *= 8;
            }
        } else {
            class = r.class.unwrap();
        }
        if class == "HARNESS" {
            eprintln!("harness error: {}", r.message);
            return (2, PathBuf::new());
        }
    }
    if !reproduced {
        eprintln!("note: run {} failed in the batch but not when replayed", idx);
        if !W::info(prop).map_or(false, |i| i.classes.contains(&"nondeterminism")) {
            eprintln!("harness error: unreproducible");
            return (2, PathBuf::new());
        }
        class = "nondeterminism".into();
    }
    let before = session.iter().map(|s| W::size(s)).sum::<usize>();
    if class != "nondeterminism" {
        session = minimise::<W>(exe, dir, prop, session, &class, Duration::from_secs(90));
    }
    let fin = exec_fresh(exe, dir, prop, &session);
    let message = if fin.message.is_empty() { msg.to_string() } else { fin.message.clone() };
    if is_known(known, &class, &message) {
        eprintln!("known finding, not reported");
        return (0, PathBuf::new());
    }
    let trace = if class == "abort" || class == "hang" { vec![] } else { W::explain(prop, session.last().unwrap()) };
    let r = Replay { property: prop.to_string(), seed, run: idx, build: build.to_string(), class, message, log: fin.log, session, trace };
    let out = PathBuf::from(args.s("replays"));
    let _ = fs::create_dir_all(&out);
    let path = out.join(format!("{}-seed{}-run{}.json", prop, seed, idx));
    fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n").unwrap_or_else(|e| die(&e.to_string()));
    eprintln!("minimised from size {} to {}: {}: {}", before, r.session.iter().map(|s| W::size(s)).sum::<usize>(), r.class, r.message);
    for t in &r.trace {
        eprintln!("  {}", t);
    }
    (1, path)
}

// ---------------------------------------------------------------- replay

fn replay<W: World>(args: &Args) {
    let file = args.s("file");
    let r: Replay<W::Sc> = serde_json::from_slice(&fs::read(&file).unwrap_or_else(|e| die(&e.to_string()))).unwrap_or_else(|e| die(&e.to_string()));
    let exes = parse_exes(args);
    let exe = exes.iter().find(|e| e.0 == r.build).unwrap_or(&exes[0]).1.clone();
    let dir = PathBuf::from(args.s("scratch"));
    fs::create_dir_all(&dir).unwrap();
    let a = exec_fresh(&exe, &dir, &r.property, &r.session);
    println!("recorded: {} log {}", r.class, r.log);
    println!("replayed: {} log {}", a.class.as_deref().unwrap_or("held"), a.log);
    if r.class == "nondeterminism" {
        for _ in 0..50 {
            let b = exec_fresh(&exe, &dir, &r.property, &r.session);
            if b.log != a.log {
                println!("VIOLATION property={} replay={}", r.property, file);
                std::process::exit(1);
            }
        }
        println!("the recorded violation does not occur");
        std::process::exit(0);
    }
    if a.class.as_deref() == Some(&r.class[..]) {
        for t in &r.trace {
            println!("  {}", t);
        }
        println!("{}", a.message);
        println!("{}", if a.log == r.log { "identical history" } else { "same violation, different history" });
        println!("VIOLATION property={} replay={}", r.property, file);
        std::process::exit(1);
    }
    println!("the recorded violation does not occur");
    std::process::exit(0);
}

// ---------------------------------------------------------------- determinism

/// Every run twice in each of several process layouts; all logs must agree.
fn determinism<W: World>(args: &Args) {
    let prop = args.s("prop");
    let n = args.n("runs");
    let exes = parse_exes(args);
    let dir = PathBuf::from(args.s("scratch"));
    fs::create_dir_all(&dir).unwrap();
    let layouts: Vec<Vec<Vec<u64>>> = vec![
        vec![(0..SHARDS).collect()],
        vec![(0..SHARDS).rev().collect()],
        (0..SHARDS).map(|s| vec![s]).collect(),
        vec![vec![0, 2, 4, 6], vec![1, 3, 5, 7]],
    ];
    let mut bad = 0;
    let mut total = 0;
    for seed in args.n("from")..args.n("from") + args.n("seeds") {
        let mut logs = vec![];
        for (li, l) in layouts.iter().enumerate() {
            let mut kids: Vec<(String, Child)> = l
                .iter()
                .enumerate()
                .map(|(k, sh)| {
                    let name = format!("t{}_{}", li, k);
                    (name.clone(), spawn_worker(&exes[0].1, &name, &prop, seed, n, sh, &dir, 600, ""))
                })
                .collect();
            let mut x = 0;
            let mut runs = 0;
            for (name, c) in kids.iter_mut() {
                let _ = c.wait();
                let r: WorkerReport = serde_json::from_slice(&fs::read(dir.join(format!("{}.json", name))).unwrap()).unwrap();
                x ^= r.log_xor;
                runs += r.runs;
            }
            total += runs;
            logs.push((runs, x));
        }
        if logs.iter().any(|l| *l != logs[0]) {
            bad += 1;
            println!("seed {}: logs differ: {:?}", seed, logs);
        }
    }
    println!("{} executions of {} runs x {} seeds in {} process layouts: {} seeds differ", total, n, args.n("seeds"), layouts.len(), bad);
    let _ = std::io::stdout().flush();
    std::process::exit(if bad == 0 { 0 } else { 2 })
}
