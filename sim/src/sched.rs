//! The thread scheduler: real threads, parked and released one at a time. Preemption points are
//! memory allocations inside the library, calls into sinks and event sources, and futex waits;
//! which thread runs next, and for how many points, is drawn from the tape.

use crate::sys;
use crate::tape::{mix, Tape};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

const NONE: u32 = u32::MAX;
const MAIN: u32 = 1000;
const MAX: usize = 8;

struct State {
    n: usize,
    alive: [bool; MAX],
    countdown: u32,
    gap: u32,
    switches_left: u32,
    tape: *mut Tape,
    hash: u64,
    points: u64,
    switches: u64,
    blocked: u64,
    idle: u32,
    finished: u32,
}

struct Global(UnsafeCell<State>);
unsafe impl Sync for Global {}

static ST: Global = Global(UnsafeCell::new(State {
    n: 0,
    alive: [false; MAX],
    countdown: 0,
    gap: 1,
    switches_left: 0,
    tape: std::ptr::null_mut(),
    hash: 0,
    points: 0,
    switches: 0,
    blocked: 0,
    idle: 0,
    finished: NONE,
}));
static ACTIVE: AtomicBool = AtomicBool::new(false);
static TURN: AtomicU32 = AtomicU32::new(NONE);
static READY: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ID: Cell<u32> = const { Cell::new(NONE) };
}

pub fn on_simulated_thread() -> bool {
    ACTIVE.load(Relaxed) && ID.try_with(Cell::get).unwrap_or(NONE) != NONE
}

fn wait_turn(id: u32) {
    loop {
        let t = TURN.load(SeqCst);
        if t == id {
            return;
        }
        sys::futex_wait(&TURN, t);
    }
}

fn give(to: u32) {
    TURN.store(to, SeqCst);
    sys::futex_wake_all(&TURN);
}

impl State {
    fn pick(&mut self, not: Option<u32>) -> Option<u32> {
        let c: Vec<u32> = (0..self.n as u32)
            .filter(|i| self.alive[*i as usize] && Some(*i) != not)
            .collect();
        if c.is_empty() {
            return None;
        }
        let t = unsafe { &mut *self.tape };
        Some(c[t.usize(c.len())])
    }
    fn rearm(&mut self) {
        if self.switches_left == 0 {
            self.countdown = u32::MAX;
            return;
        }
        self.switches_left -= 1;
        let t = unsafe { &mut *self.tape };
        self.countdown = 1 + t.draw(self.gap);
    }
}

/// A possible preemption. `kind` only labels the point for the interleaving signature.
#[inline]
pub fn point(kind: u64) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let id = ID.try_with(Cell::get).unwrap_or(NONE);
    if id == NONE {
        return;
    }
    let st = unsafe { &mut *ST.0.get() };
    st.points += 1;
    st.idle = 0;
    if st.countdown > 1 {
        st.countdown -= 1;
        return;
    }
    ID.with(|i| i.set(NONE)); // the simulator's own allocations are not preemption points
    crate::alloc::outside(|| {
        st.rearm();
        let next = st.pick(None).unwrap_or(id);
        st.hash = mix(st.hash ^ st.points, (u64::from(next) << 8) | kind);
        if next != id {
            st.switches += 1;
            give(next);
            wait_turn(id);
        }
    });
    ID.with(|i| i.set(id));
}

/// The current thread cannot continue until another one acts.
pub fn blocked() {
    let id = ID.with(Cell::get);
    let st = unsafe { &mut *ST.0.get() };
    st.blocked += 1;
    st.idle += 1;
    if st.idle > 2000 {
        crate::engine::die("deadlock");
    }
    ID.with(|i| i.set(NONE));
    crate::alloc::outside(|| {
        if let Some(next) = st.pick(Some(id)) {
            st.hash = mix(st.hash ^ st.points, 0xB10C_0000 | u64::from(next));
            st.switches += 1;
            give(next);
            wait_turn(id);
        }
    });
    ID.with(|i| i.set(id));
}

pub struct Report {
    pub hash: u64,
    pub points: u64,
    pub switches: u64,
    pub blocked: u64,
}

/// Run the bodies on a thread each, interleaved as the tape says.
pub fn run(tape: &mut Tape, gap: u32, max_switches: u32, stack: usize, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = bodies.len();
    assert!(n <= MAX);
    {
        let st = unsafe { &mut *ST.0.get() };
        *st = State {
            n,
            alive: [false; MAX],
            countdown: 1,
            gap: gap.max(1),
            switches_left: max_switches,
            tape,
            hash: 0,
            points: 0,
            switches: 0,
            blocked: 0,
            idle: 0,
            finished: NONE,
        };
        for i in 0..n {
            st.alive[i] = true;
        }
    }
    TURN.store(MAIN, SeqCst);
    READY.store(0, SeqCst);
    let mut handles: Vec<Option<std::thread::JoinHandle<()>>> = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let id = i as u32;
        let h = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                READY.fetch_add(1, SeqCst);
                sys::futex_wake_all(&READY);
                wait_turn(id);
                ID.with(|c| c.set(id));
                b();
                ID.with(|c| c.set(NONE));
                let st = unsafe { &mut *ST.0.get() };
                st.finished = id;
                give(MAIN);
            })
            .expect("spawn");
        handles.push(Some(h));
        loop {
            let r = READY.load(SeqCst);
            if r == id + 1 {
                break;
            }
            sys::futex_wait(&READY, r);
        }
    }
    ACTIVE.store(true, SeqCst);
    loop {
        let st = unsafe { &mut *ST.0.get() };
        let Some(next) = st.pick(None) else { break };
        st.rearm();
        st.hash = mix(st.hash ^ st.points, 0xF1_0000 | u64::from(next));
        give(next);
        wait_turn(MAIN);
        let st = unsafe { &mut *ST.0.get() };
        let f = st.finished as usize;
        st.alive[f] = false;
        // joined before anything else runs: thread exit is part of the schedule
        let _ = handles[f].take().unwrap().join();
    }
    ACTIVE.store(false, SeqCst);
    TURN.store(NONE, SeqCst);
    let st = unsafe { &mut *ST.0.get() };
    st.tape = std::ptr::null_mut();
    Report {
        hash: st.hash,
        points: st.points,
        switches: st.switches,
        blocked: st.blocked,
    }
}
