//! Real threads, one runnable at a time: at every yield point the scenario's
//! schedule, not the operating system, says who goes next.
use std::sync::{Condvar, Mutex};

pub struct Coop {
    m: Mutex<State>,
    cv: Condvar,
}
struct State {
    current: usize,
    alive: Vec<bool>,
    sched: Vec<u8>,
    pos: usize,
    switches: u64,
    trace: crate::rng::Fold,
}

impl Coop {
    pub fn new(n: usize, sched: Vec<u8>) -> Coop {
        Coop {
            m: Mutex::new(State { current: 0, alive: vec![true; n], sched, pos: 0, switches: 0, trace: crate::rng::Fold::new() }),
            cv: Condvar::new(),
        }
    }
    fn choose(s: &mut State) {
        let alive: Vec<usize> = (0..s.alive.len()).filter(|&i| s.alive[i]).collect();
        if alive.is_empty() {
            return;
        }
        let byte = s.sched.get(s.pos).copied();
        s.pos += 1;
        let next = match byte {
            // Schedule used up, or an entry that says "stay": keep going.
            None | Some(0..=127) if s.alive[s.current] => s.current,
            None => alive[0],
            Some(b) => alive[(b & 127) as usize % alive.len()],
        };
        if next != s.current {
            s.switches += 1;
        }
        s.trace.add(next as u64);
        s.current = next;
    }
    /// Wait for the first turn.
    pub fn enter(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        while s.current != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    pub fn yield_now(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        Coop::choose(&mut s);
        if s.current == me {
            return;
        }
        self.cv.notify_all();
        while s.current != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    pub fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.alive[me] = false;
        Coop::choose(&mut s);
        self.cv.notify_all();
    }
    /// (switches made, hash of the sequence of turns)
    pub fn summary(&self) -> (u64, u64) {
        let s = self.m.lock().unwrap();
        (s.switches, s.trace.0)
    }
}
