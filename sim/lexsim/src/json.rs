//! Consumers sharing one JSON object, with fields missing, null or garbled
//! between their steps (C15).
use json08::Value;
use serde::{Deserialize, Serialize};
use simcore::driver::Outcome;
use simcore::panics::{self, Caught};
use simcore::rng::{Fold, Rng};
use std::collections::BTreeMap;
use unjson::error::Error;
use unjson::ty::{Object, Ty};
use unjson::{ExtractField, GetField, Unjson};

pub const NAMES: &[&str] = &["type", "name", "value", "body", "a", "ab", "", "id", "loc", "é"];

/// A JSON value as the scenario file spells it.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(usize, J)>),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum K {
    Field,
    Str,
    Array,
    Object,
    Bool,
    I64,
    U64,
    F64,
    Number,
}
const KS: [K; 9] = [K::Field, K::Str, K::Array, K::Object, K::Bool, K::I64, K::U64, K::F64, K::Number];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Get(K, bool, usize),
    Extract(K, bool, usize),
    /// The same conversions on a copy of a stored value.
    Convert(K, bool, usize),
    /// Take an object field and work inside it until Leave puts it back.
    Enter(usize),
    Leave,
    /// Faults: the document loses or changes a field between two steps.
    Lose(usize),
    Garble(usize, J),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: Vec<(usize, J)>,
    /// Each consumer's steps; the schedule says whose turn it is.
    pub consumers: Vec<Vec<Op>>,
    pub sched: Vec<u8>,
}

fn value(j: &J) -> Value {
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::I(i) => Value::I64(*i),
        J::U(u) => Value::U64(*u),
        J::F(f) => Value::F64(*f),
        J::S(s) => Value::String(s.clone()),
        J::A(a) => Value::Array(a.iter().map(value).collect()),
        J::O(o) => Value::Object(object(o)),
    }
}
fn object(o: &[(usize, J)]) -> Object {
    o.iter().map(|(n, j)| (NAMES[*n % NAMES.len()].to_string(), value(j))).collect()
}

fn gen_value(r: &mut Rng, depth: usize, serial: &mut u64) -> J {
    *serial += 1;
    match r.below(if depth == 0 { 8 } else { 11 }) {
        0 => J::Null,
        1 => J::Bool(r.pct(50)),
        2 => J::I(*r.pick(&[0, -1, i64::MIN, i64::MAX, 1 << 53]) + if r.pct(50) { 0 } else { *serial as i64 / 2 * 0 }),
        3 => J::U(*r.pick(&[0, 1, 42, u64::MAX, 1 << 63])),
        4 => J::F(*r.pick(&[0.0, -0.0, 1.5, 1e300, -3.0, 4294967296.5])),
        5..=7 => J::S(format!("s{}", serial)),
        8 => J::A((0..r.geometric(1, 4)).map(|_| gen_value(r, depth - 1, serial)).collect()),
        _ => J::O((0..r.geometric(2, 5)).map(|_| (r.below(NAMES.len()), gen_value(r, depth - 1, serial))).collect()),
    }
}

pub fn generate(r: &mut Rng) -> Sc {
    let mut serial = 0;
    let doc: Vec<(usize, J)> = (0..1 + r.geometric(4, 9)).map(|_| (r.below(NAMES.len()), gen_value(r, 2, &mut serial))).collect();
    let names: Vec<usize> = doc.iter().map(|d| d.0).collect();
    let faults = r.pct(60);
    let consumers = (0..1 + r.geometric(1, 3))
        .map(|_| {
            (0..1 + r.geometric(8, 30))
                .map(|_| {
                    let n = if r.pct(85) { *r.pick(&names) } else { r.below(NAMES.len()) };
                    // Half the time ask for the type the field was created with.
                    let k = if r.pct(50) {
                        match doc.iter().rev().find(|d| d.0 == n).map(|d| &d.1) {
                            Some(J::Bool(_)) => K::Bool,
                            Some(J::I(_)) => *r.pick(&[K::I64, K::Number]),
                            Some(J::U(_)) => *r.pick(&[K::U64, K::Number]),
                            Some(J::F(_)) => *r.pick(&[K::F64, K::Number]),
                            Some(J::S(_)) => K::Str,
                            Some(J::A(_)) => K::Array,
                            Some(J::O(_)) => K::Object,
                            _ => *r.pick(&KS),
                        }
                    } else {
                        *r.pick(&KS)
                    };
                    match r.below(if faults { 14 } else { 12 }) {
                        0..=4 => Op::Get(k, r.pct(50), n),
                        5..=7 => Op::Extract(k, r.pct(50), n),
                        8..=9 => Op::Convert(k, r.pct(50), n),
                        10 => Op::Enter(n),
                        11 => Op::Leave,
                        12 => Op::Lose(n),
                        _ => Op::Garble(n, gen_value(r, 1, &mut serial)),
                    }
                })
                .collect()
        })
        .collect();
    let sched = (0..r.geometric(20, 60)).map(|_| r.below(256) as u8).collect();
    Sc { doc, consumers, sched }
}

/// What a call handed over.
#[derive(Debug, Clone)]
enum Got {
    Nothing,
    V(Value),
    N(f64),
}

fn ty(v: &Value) -> Ty {
    match v {
        Value::Null => Ty::Null,
        Value::Bool(_) => Ty::Boolean,
        Value::I64(_) | Value::U64(_) | Value::F64(_) => Ty::Number,
        Value::String(_) => Ty::String,
        Value::Array(_) => Ty::Array,
        Value::Object(_) => Ty::Object,
    }
}

/// What JSON calls a type.
fn spelled(t: Ty) -> &'static str {
    match t {
        Ty::Null => "null",
        Ty::Boolean => "boolean",
        Ty::Number => "number",
        Ty::String => "string",
        Ty::Array => "array",
        Ty::Object => "object",
    }
}

/// What a refusal has to call the type that was asked for (a number has more names than one).
fn asked(k: K) -> Option<&'static str> {
    match k {
        K::Str => Some("string"),
        K::Array => Some("array"),
        K::Object => Some("object"),
        K::Bool => Some("bool"),
        _ => None,
    }
}

fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::F64(x), Value::F64(y)) => x.to_bits() == y.to_bits(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => same_obj(x, y),
        (a, b) => a == b,
    }
}
fn same_obj(x: &Object, y: &Object) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same(a, b))
}

fn get(o: &Object, k: K, opt: bool, n: &'static str) -> Result<Got, Error> {
    fn some<T>(x: Option<T>, f: impl FnOnce(T) -> Got) -> Got {
        x.map_or(Got::Nothing, f)
    }
    let i = |x| Got::V(Value::I64(x));
    let u = |x| Got::V(Value::U64(x));
    let b = |x| Got::V(Value::Bool(x));
    let s = |x: &str| Got::V(Value::String(x.to_string()));
    Ok(match (k, opt) {
        (K::Field, _) => Got::V(o.get_field(n)?.clone()),
        (K::Str, false) => s(o.get_string(n)?),
        (K::Str, true) => some(o.get_string_opt(n)?, s),
        (K::Array, false) => Got::V(Value::Array(o.get_array(n)?.clone())),
        (K::Array, true) => some(o.get_array_opt(n)?, |x| Got::V(Value::Array(x.clone()))),
        (K::Object, false) => Got::V(Value::Object(o.get_object(n)?.clone())),
        (K::Object, true) => some(o.get_object_opt(n)?, |x| Got::V(Value::Object(x.clone()))),
        (K::Bool, false) => b(o.get_bool(n)?),
        (K::Bool, true) => some(o.get_bool_opt(n)?, b),
        (K::I64, false) => i(o.get_i64(n)?),
        (K::I64, true) => some(o.get_i64_opt(n)?, i),
        (K::U64, false) => u(o.get_u64(n)?),
        (K::U64, true) => some(o.get_u64_opt(n)?, u),
        (K::F64, false) => Got::N(o.get_f64(n)?),
        (K::F64, true) => some(o.get_f64_opt(n)?, Got::N),
        (K::Number, false) => Got::N(o.get_number(n)?),
        (K::Number, true) => some(o.get_number_opt(n)?, Got::N),
    })
}

fn extract(o: &mut Object, k: K, opt: bool, n: &'static str) -> Result<Got, Error> {
    fn some<T>(x: Option<T>, f: impl FnOnce(T) -> Got) -> Got {
        x.map_or(Got::Nothing, f)
    }
    let i = |x| Got::V(Value::I64(x));
    let u = |x| Got::V(Value::U64(x));
    let b = |x| Got::V(Value::Bool(x));
    Ok(match (k, opt) {
        (K::Field, _) => Got::V(o.extract_field(n)?),
        (K::Str, false) => Got::V(Value::String(o.extract_string(n)?)),
        (K::Str, true) => some(o.extract_string_opt(n)?, |x| Got::V(Value::String(x))),
        (K::Array, false) => Got::V(Value::Array(o.extract_array(n)?)),
        (K::Array, true) => some(o.extract_array_opt(n)?, |x| Got::V(Value::Array(x))),
        (K::Object, false) => Got::V(Value::Object(o.extract_object(n)?)),
        (K::Object, true) => some(o.extract_object_opt(n)?, |x| Got::V(Value::Object(x))),
        (K::Bool, false) => b(o.extract_bool(n)?),
        (K::Bool, true) => some(o.extract_bool_opt(n)?, b),
        (K::I64, false) => i(o.extract_i64(n)?),
        (K::I64, true) => some(o.extract_i64_opt(n)?, i),
        (K::U64, false) => u(o.extract_u64(n)?),
        (K::U64, true) => some(o.extract_u64_opt(n)?, u),
        (K::F64, false) => Got::N(o.extract_f64(n)?),
        (K::F64, true) => some(o.extract_f64_opt(n)?, Got::N),
        (K::Number, false) => Got::N(o.extract_number(n)?),
        (K::Number, true) => some(o.extract_number_opt(n)?, Got::N),
    })
}

fn convert(v: Value, k: K, opt: bool) -> Result<Got, Error> {
    fn some<T>(x: Option<T>, f: impl FnOnce(T) -> Got) -> Got {
        x.map_or(Got::Nothing, f)
    }
    let i = |x| Got::V(Value::I64(x));
    let u = |x| Got::V(Value::U64(x));
    let b = |x| Got::V(Value::Bool(x));
    Ok(match (k, opt) {
        (K::Field, _) => Got::V(v),
        (K::Str, false) => Got::V(Value::String(v.into_string()?)),
        (K::Str, true) => some(v.into_string_opt()?, |x| Got::V(Value::String(x))),
        (K::Array, false) => Got::V(Value::Array(v.into_array()?)),
        (K::Array, true) => some(v.into_array_opt()?, |x| Got::V(Value::Array(x))),
        (K::Object, false) => Got::V(Value::Object(v.into_object()?)),
        (K::Object, true) => some(v.into_object_opt()?, |x| Got::V(Value::Object(x))),
        (K::Bool, false) => b(v.to_bool()?),
        (K::Bool, true) => some(v.to_bool_opt()?, b),
        (K::I64, false) => i(v.to_i64()?),
        (K::I64, true) => some(v.to_i64_opt()?, i),
        (K::U64, false) => u(v.to_u64()?),
        (K::U64, true) => some(v.to_u64_opt()?, u),
        (K::F64, false) => Got::N(v.to_f64()?),
        (K::F64, true) => some(v.to_f64_opt()?, Got::N),
        (K::Number, false) => Got::N(v.to_number()?),
        (K::Number, true) => some(v.to_number_opt()?, Got::N),
    })
}

/// The stored value as a number.
fn num(v: &Value) -> Option<f64> {
    match *v {
        Value::I64(i) => Some(i as f64),
        Value::U64(u) => Some(u as f64),
        Value::F64(f) => Some(f),
        _ => None,
    }
}

/// Is `r` a right answer for a request of kind k on what is stored?
fn judge(stored: Option<&Value>, k: K, opt: bool, n: &'static str, r: &Result<Got, Error>) -> Result<(), String> {
    let v = match stored {
        None => {
            return match r {
                Err(e @ Error::MissingField(m)) if *m == n && e.to_string().contains(n) => Ok(()),
                r => Err(format!("field '{}' is missing but the result is {:?}", n, r)),
            }
        }
        Some(v) => v,
    };
    if opt && k != K::Field && *v == Value::Null {
        return match r {
            Ok(Got::Nothing) => Ok(()),
            r => Err(format!("field '{}' is null but the result is {:?}", n, r)),
        };
    }
    let exact = match (k, v) {
        (K::Field, _)
        | (K::Str, Value::String(_))
        | (K::Array, Value::Array(_))
        | (K::Object, Value::Object(_))
        | (K::Bool, Value::Bool(_))
        | (K::I64, Value::I64(_))
        | (K::U64, Value::U64(_))
        | (K::F64, Value::F64(_)) => true,
        (K::Number, v) => num(v).is_some(),
        _ => false,
    };
    // An integer asked for in another representation may be refused or converted.
    let either = !exact && matches!(k, K::I64 | K::U64 | K::F64) && num(v).is_some();
    match r {
        Ok(g) if exact || either => {
            let good = match g {
                Got::Nothing => false,
                Got::V(x) if either => match (num(x), num(v)) {
                    (Some(a), Some(b)) => a == b,
                    _ => false,
                },
                Got::V(x) => same(x, v),
                Got::N(x) => num(v).map_or(false, |y| x.to_bits() == y.to_bits()),
            };
            if good { Ok(()) } else { Err(format!("field '{}' is {:?} but {:?} was handed over", n, v, g)) }
        }
        Ok(g) => Err(format!("field '{}' is {:?}, not a {:?}, but {:?} was handed over", n, v, k, g)),
        Err(e @ Error::TypeMismatch(wanted, t)) if !exact => {
            let text = e.to_string();
            if *t == ty(v) && t.to_string() == spelled(*t) && text.contains(spelled(*t)) && asked(k).map_or(true, |w| wanted.contains(w) && text.contains(w)) {
                Ok(())
            } else {
                Err(format!("field '{}' is {:?} but the error says {:?}", n, v, e))
            }
        }
        Err(e) => Err(format!("field '{}' is {:?} but asking for {:?} gave error {:?}", n, v, k, e)),
    }
}

pub fn exec(sc: &Sc, mut trace: Option<&mut Vec<String>>) -> Outcome {
    let mut out = Outcome::default();
    let mut real = object(&sc.doc);
    let mut model: BTreeMap<String, Value> = real.clone();
    // Objects taken out by Enter: (field name, what was around it).
    let mut outer: Vec<(String, Object, Object)> = vec![];
    let mut next = vec![0; sc.consumers.len()];
    let mut log = Fold::new();
    let mut inter = Fold::new();
    let mut turn = 0;
    let mut si = 0;
    let mut count: BTreeMap<&'static str, u64> = BTreeMap::new();
    loop {
        let alive: Vec<usize> = (0..next.len()).filter(|&i| next[i] < sc.consumers[i].len()).collect();
        if alive.is_empty() {
            break;
        }
        match sc.sched.get(si) {
            Some(&b) if b >= 96 || !alive.contains(&turn) => turn = alive[b as usize % alive.len()],
            _ if !alive.contains(&turn) => turn = alive[0],
            _ => {}
        }
        si += 1;
        let op = sc.consumers[turn][next[turn]].clone();
        next[turn] += 1;
        out.steps += 1;
        let before = model.clone();
        let name = |n: usize| NAMES[n % NAMES.len()];
        let res: Result<Result<(), String>, Caught> = panics::catch(|| match op {
            Op::Get(k, opt, n) => {
                let r = get(&real, k, opt, name(n));
                log.str(&format!("{:?}", r));
                *count.entry(if r.is_ok() { "reads answered" } else { "reads refused" }).or_insert(0) += 1;
                judge(before.get(name(n)), k, opt, name(n), &r)
            }
            Op::Convert(k, opt, n) => match before.get(name(n)) {
                None => Ok(()),
                Some(v) => {
                    let r = convert(v.clone(), k, opt);
                    log.str(&format!("{:?}", r));
                    *count.entry("conversions").or_insert(0) += 1;
                    judge(Some(v), k, opt, name(n), &r)
                }
            },
            Op::Extract(k, opt, n) => {
                let r = extract(&mut real, k, opt, name(n));
                log.str(&format!("{:?}", r));
                *count.entry(if r.is_ok() { "extractions answered" } else { "extractions refused" }).or_insert(0) += 1;
                match &r {
                    Ok(_) => {
                        model.remove(name(n));
                    }
                    // Whether a refused field stays is not specified.
                    Err(_) => {
                        if !real.contains_key(name(n)) {
                            model.remove(name(n));
                        }
                    }
                }
                judge(before.get(name(n)), k, opt, name(n), &r)
            }
            Op::Enter(n) => {
                if outer.len() >= 3 {
                    return Ok(());
                }
                let r = real.extract_object(name(n));
                let j = judge(before.get(name(n)), K::Object, false, name(n), &match &r {
                    Ok(o) => Ok(Got::V(Value::Object(o.clone()))),
                    Err(e) => Err(match e {
                        Error::MissingField(m) => Error::MissingField(m),
                        Error::TypeMismatch(a, b) => Error::TypeMismatch(a, *b),
                        e => return Err(format!("unexpected error {:?}", e)),
                    }),
                });
                log.add(r.is_ok() as u64);
                match r {
                    Ok(o) => {
                        model.remove(name(n));
                        let inner = o.clone();
                        outer.push((name(n).to_string(), std::mem::replace(&mut real, o), std::mem::replace(&mut model, inner)));
                        *count.entry("objects entered").or_insert(0) += 1;
                    }
                    Err(_) => {
                        if !real.contains_key(name(n)) {
                            model.remove(name(n));
                        }
                    }
                }
                j
            }
            Op::Leave => {
                if let Some((n, r, m)) = outer.pop() {
                    let inner = std::mem::replace(&mut real, r);
                    let minner = std::mem::replace(&mut model, m);
                    real.insert(n.clone(), Value::Object(inner));
                    model.insert(n, Value::Object(minner));
                }
                Ok(())
            }
            Op::Lose(n) => {
                if real.remove(name(n)).is_some() {
                    *count.entry("fault:field lost").or_insert(0) += 1;
                }
                model.remove(name(n));
                Ok(())
            }
            Op::Garble(n, ref j) => {
                real.insert(name(n).to_string(), value(j));
                model.insert(name(n).to_string(), value(j));
                *count.entry("fault:field garbled").or_insert(0) += 1;
                Ok(())
            }
        });
        let at = format!("consumer {} step {} {:?}", turn, next[turn] - 1, op);
        if let Some(t) = trace.as_mut() {
            t.push(at.clone());
        }
        match res {
            Err(Caught::Foreign(m)) => out.fail("panic", format!("{}: panicked: {}", at, m)),
            Err(_) => {}
            Ok(Err(m)) => out.fail("json-value", format!("{}: {}", at, m)),
            Ok(Ok(())) => {
                if !same_obj(&real, &model) {
                    out.fail("json-other", format!("{}: the object is now {:?}, should be {:?}", at, real, model));
                }
            }
        }
        inter.add(turn as u64);
        inter.str(&format!("{:?}", std::mem::discriminant(&op)));
        let mut st = Fold::new();
        for (k, v) in &real {
            st.str(k);
            st.add(ty(v) as u64);
        }
        st.add(outer.len() as u64);
        out.states.push(st.0);
        if out.violation.is_some() {
            break;
        }
    }
    for (k, n) in count {
        out.count(k, n);
    }
    out.log = log.0;
    out.interleaving = inter.0;
    out.nontrivial = out.steps > 1;
    out
}

pub fn shrink(sc: &Sc) -> Vec<Sc> {
    let mut v = vec![];
    for i in 0..sc.consumers.len() {
        if sc.consumers.len() > 1 {
            let mut s = sc.clone();
            s.consumers.remove(i);
            v.push(s);
        }
    }
    if !sc.sched.is_empty() {
        let mut s = sc.clone();
        s.sched.clear();
        v.push(s);
        let mut s = sc.clone();
        s.sched.pop();
        v.push(s);
    }
    for i in 0..sc.consumers.len() {
        let n = sc.consumers[i].len();
        let mut k = n / 2;
        while k > 0 {
            for at in (0..n).step_by(k) {
                let mut s = sc.clone();
                s.consumers[i].drain(at..(at + k).min(n));
                v.push(s);
            }
            k /= 2;
        }
    }
    for i in 0..sc.doc.len() {
        let mut s = sc.clone();
        s.doc.remove(i);
        v.push(s);
        match &sc.doc[i].1 {
            J::O(o) if !o.is_empty() => {
                let mut s = sc.clone();
                s.doc[i].1 = J::O(o[1..].to_vec());
                v.push(s);
            }
            J::A(a) if !a.is_empty() => {
                let mut s = sc.clone();
                s.doc[i].1 = J::A(vec![]);
                v.push(s);
            }
            _ => {}
        }
    }
    v
}

pub fn size(sc: &Sc) -> usize {
    fn j(x: &J) -> usize {
        match x {
            J::A(a) => 2 + a.iter().map(j).sum::<usize>(),
            J::O(o) => 2 + o.iter().map(|x| j(&x.1)).sum::<usize>(),
            _ => 1,
        }
    }
    sc.doc.iter().map(|d| 2 + j(&d.1)).sum::<usize>() + sc.consumers.iter().map(|c| 3 + 4 * c.len()).sum::<usize>() + sc.sched.len()
}
