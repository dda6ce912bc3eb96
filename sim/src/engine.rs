//! The search engine: runs seeds in batches in pristine child processes, collects what happened,
//! and minimises, stores and re-verifies violations.

use crate::sys;
use crate::tape::{hash_bytes, mix, Tape, MIRROR_MAX};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicI32, Ordering::*};

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.to_string(),
        detail: detail.into(),
    })
}

/// What one run sees of the simulator.
pub struct Ctx {
    pub tape: Tape,
    pub counters: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub case: u64,
    pub nontrivial: bool,
    pub log: u64,
    pub trace: bool,
    pub slot: usize,
}

impl Ctx {
    fn new(tape: Tape, trace: bool, slot: usize) -> Self {
        Ctx {
            tape,
            counters: BTreeMap::new(),
            states: Vec::new(),
            case: 0,
            nontrivial: false,
            log: 0,
            trace,
            slot,
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counters.entry(k).or_insert(0) += n;
        }
    }
    /// Part of the event log: anything that must be identical when the seed is repeated.
    pub fn event(&mut self, h: u64) {
        self.log = mix(self.log, h);
    }
    pub fn event_bytes(&mut self, b: &[u8]) {
        self.event(hash_bytes(b));
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            // at once: the run may not come to its end
            let l = format!("T {}\n", esc(&f()));
            let fd = OUT_FD.load(SeqCst);
            let mut b = l.as_bytes();
            while !b.is_empty() {
                let n = unsafe { sys::write(fd, b.as_ptr().cast(), b.len()) };
                if n <= 0 {
                    break;
                }
                b = &b[n as usize..];
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub batch: u64,
    pub quick: u64,
    pub thorough: u64,
    pub zygote: bool,
    pub info: Info,
}

/// Evidence texts.
#[derive(Clone, Copy)]
pub struct Info {
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

// ---- child side -----------------------------------------------------------------------------

static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static mut SHARED: *mut u32 = std::ptr::null_mut();
const SLOT_WORDS: usize = MIRROR_MAX + 16;

fn shared(slot: usize) -> *mut u32 {
    unsafe { SHARED.add(slot * SLOT_WORDS) }
}

fn map_shared(slots: usize) {
    unsafe {
        let p = sys::mmap(std::ptr::null_mut(), slots * SLOT_WORDS * 4, 3, 0x21 | 0x4000, -1, 0);
        assert!(p as isize != -1);
        SHARED = p.cast();
    }
}

pub fn write_all_fd(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { sys::write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}

/// End this process at once with a violation of the given class; callable from anywhere,
/// including the allocator.
pub fn die(class: &str) -> ! {
    let fd = OUT_FD.load(SeqCst);
    if fd >= 0 {
        write_all_fd(fd, b"\nK ");
        write_all_fd(fd, class.as_bytes());
        write_all_fd(fd, b"\n");
    }
    unsafe { sys::_exit(7) }
}

/// The pipe that a process which runs library code reports to (for nested forks).
pub fn set_out(fd: i32) {
    OUT_FD.store(fd, SeqCst);
}

#[derive(Clone, Debug)]
pub enum Entry {
    Seed(u64),
    Tape(Vec<u32>),
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\\' => o.push_str("\\\\"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\x{:02x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

static PANIC_INSIDE: AtomicI32 = AtomicI32::new(0);

thread_local! {
    pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        PANIC_INSIDE.store(i32::from(sys::INSIDE.try_with(std::cell::Cell::get).unwrap_or(false)), SeqCst);
        crate::alloc::outside(|| {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
            if std::env::var_os("JDSIM_PANICS").is_some() {
                eprintln!("panic at {loc}: {msg}");
            }
        });
    }));
}

pub fn last_panic() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

/// Where a panic came from, with the message cut off: stable under shrinking.
pub fn panic_class(s: &str) -> String {
    let f = s.split(':').next().unwrap_or("");
    let f = f.rsplit('/').next().unwrap_or("");
    format!("panic-in-{f}")
}

/// Runs a history in this process and writes records to `fd`.
fn child(prop: &Prop, entries: &[Entry], fd: i32, slot: usize, trace: bool) -> ! {
    set_out(fd);
    let mut out = String::new();
    if prop.zygote {
        crate::zygote::start();
    }
    for (i, e) in entries.iter().enumerate() {
        let sh = shared(slot);
        unsafe {
            *sh = i as u32;
            *sh.add(1) = (*sh.add(1)).wrapping_add(1);
        }
        let tape = match e {
            Entry::Seed(s) => Tape::search(*s),
            Entry::Tape(d) => Tape::replay(d.clone()),
        }
        .mirrored(unsafe { sh.add(2) });
        crate::sys::set_env(&crate::sys::Env::default());
        crate::alloc::set_layout(crate::alloc::Layouting::default());
        crate::alloc::RUN_ALLOCS.store(0, SeqCst);
        let mut ctx = Ctx::new(tape, trace, slot);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(&mut ctx)));
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let p = last_panic();
                if PANIC_INSIDE.load(SeqCst) == 1 {
                    fail(&panic_class(&p), p)
                } else {
                    // a mistake of the harness, not of the code under test
                    let _ = writeln!(out, "H {}", esc(&p));
                    Ok(())
                }
            }
        };
        let h = mix(ctx.log, u64::from(r.is_err()));
        let _ = writeln!(out, "D {i} {h:x} {} {:x} {}", u8::from(ctx.nontrivial), ctx.case, ctx.tape.used());
        for (k, v) in &ctx.counters {
            let _ = writeln!(out, "C {k} {v}");
        }
        for s in &ctx.states {
            let _ = writeln!(out, "S {s:x}");
        }
        if let Err(v) = r {
            let _ = writeln!(out, "V {i} {} {}", v.class.replace(' ', "-"), esc(&v.detail));
            break;
        }
    }
    out.push_str("E\n");
    write_all_fd(fd, out.as_bytes());
    crate::zygote::stop();
    unsafe { sys::_exit(0) }
}

// ---- parent side ----------------------------------------------------------------------------

struct Proc {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    slot: usize,
    beat: (u32, f64),
    killed: Option<&'static str>,
    /// Seconds of real time without progress until it counts as hanging.
    patience: f64,
}

pub struct Outcome {
    pub lines: Vec<String>,
    pub violation: Option<(usize, Violation)>,
    pub harness_error: Option<String>,
}

/// A run without progress for so long is tried once more, with more patience, as the machine or
/// the document may just be slow.
const HANG_S: f64 = 30.0;
const PATIENCE_S: f64 = 100.0;

fn spawn(prop: &Prop, entries: &[Entry], slot: usize, trace: bool, patience: f64) -> Proc {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(sys::pipe(fds.as_mut_ptr()), 0);
        let sh = shared(slot);
        *sh = 0;
        *sh.add(1) = 0;
        let parent = std::process::id() as i32;
        let pid = sys::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            sys::close(fds[0]);
            sys::prctl(1, 9); // die with the parent
            if sys::getppid() != parent {
                sys::_exit(0);
            }
            if std::env::var_os("JDSIM_STDERR").is_none() {
                let n = sys::open(c"/dev/null".as_ptr(), 1);
                sys::dup2(n, 2);
            }
            child(prop, entries, fds[1], slot, trace);
        }
        sys::close(fds[1]);
        Proc {
            pid,
            fd: fds[0],
            buf: Vec::new(),
            slot,
            beat: (0, sys::wall()),
            killed: None,
            patience,
        }
    }
}

/// Waits until one of the processes is finished; returns its index.
fn wait_any(ps: &mut [Proc]) -> usize {
    loop {
        let mut pf: Vec<sys::PollFd> = ps
            .iter()
            .map(|p| sys::PollFd {
                fd: p.fd,
                events: 1,
                revents: 0,
            })
            .collect();
        unsafe { sys::poll(pf.as_mut_ptr(), pf.len() as u64, 500) };
        for (i, f) in pf.iter().enumerate() {
            if f.revents != 0 {
                let mut tmp = [0u8; 65536];
                let n = unsafe { sys::read(f.fd, tmp.as_mut_ptr().cast(), tmp.len()) };
                if n > 0 {
                    ps[i].buf.extend_from_slice(&tmp[..n as usize]);
                } else {
                    return i;
                }
            }
        }
        let now = sys::wall();
        for p in ps.iter_mut() {
            let b = unsafe { std::ptr::read_volatile(shared(p.slot).add(1)) };
            if b != p.beat.0 {
                p.beat = (b, now);
            } else if now - p.beat.1 > p.patience && p.killed.is_none() {
                p.killed = Some("hang");
                unsafe { sys::kill(p.pid, 9) };
            }
        }
    }
}

fn finish(p: Proc, n: usize) -> Outcome {
    let mut st = 0;
    unsafe {
        sys::close(p.fd);
        sys::waitpid(p.pid, &mut st, 0);
    }
    let text = String::from_utf8_lossy(&p.buf).into_owned();
    let lines: Vec<String> = text.lines().map(str::to_string).collect();
    let mut o = Outcome {
        lines,
        violation: None,
        harness_error: None,
    };
    let cur = unsafe { *shared(p.slot) } as usize;
    let v = |class: &str, detail: String| {
        Some((
            cur.min(n.saturating_sub(1)),
            Violation {
                class: class.to_string(),
                detail,
            },
        ))
    };
    let mut ended = false;
    for l in &o.lines {
        if let Some(r) = l.strip_prefix("V ") {
            let mut it = r.splitn(3, ' ');
            let i = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            o.violation = Some((
                i,
                Violation {
                    class: it.next().unwrap_or("").to_string(),
                    detail: it.next().unwrap_or("").to_string(),
                },
            ));
        } else if let Some(r) = l.strip_prefix("K ") {
            o.violation = v(r, "the run was stopped".into());
            return o;
        } else if let Some(r) = l.strip_prefix("H ") {
            o.harness_error = Some(r.to_string());
        } else if l == "E" {
            ended = true;
        }
    }
    if o.violation.is_none() && !ended {
        if let Some(k) = p.killed {
            o.violation = v(k, format!("no progress for {} s of real time", p.patience));
        } else {
            let sig = st & 0x7f;
            if sig == 9 {
                o.harness_error = Some("child was killed".into());
            } else if sig != 0 {
                o.violation = v("crash", format!("killed by signal {sig} (stack overflow or abort)"));
            } else {
                o.harness_error = Some(format!("child exited with status {:x}", st));
            }
        }
    }
    o
}

fn run_history(prop: &Prop, entries: &[Entry], trace: bool) -> Outcome {
    let mut ps = [spawn(prop, entries, 0, trace, HANG_S)];
    wait_any(&mut ps);
    let [p] = ps;
    finish(p, entries.len())
}

fn mirrored_tape(slot: usize) -> Vec<u32> {
    unsafe {
        let m = shared(slot).add(2);
        let n = *m as usize;
        (1..=n).map(|i| *m.add(i)).collect()
    }
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub workers: usize,
    pub runs: Option<u64>,
    pub first: u64,
    pub wall: f64,
    pub digest: Option<String>,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub extra: Vec<(String, String)>,
}

type Set = BTreeSet<u64>;

pub fn seed_of(prop: &Prop, seed: u64, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(prop.id.as_bytes())), idx)
}

/// Returns the exit status.
pub fn check(prop: &Prop, o: &Options) -> i32 {
    let t0 = sys::wall();
    map_shared(o.workers);
    let total = o.runs.unwrap_or(if o.thorough { prop.thorough } else { prop.quick });
    let nbatch = total.div_ceil(prop.batch);
    let mut next = 0u64;
    let mut ps: Vec<Proc> = Vec::new();
    let mut pb: Vec<(u64, Vec<Entry>)> = Vec::new();
    let mut free: Vec<usize> = (0..o.workers).collect();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut cases = Set::new();
    let mut nontriv = Set::new();
    let mut states = Set::new();
    let mut evals = 0u64;
    let mut draws = 0u64;
    let mut digests: BTreeMap<u64, String> = BTreeMap::new();
    let mut found: Option<(u64, Vec<Entry>, Violation)> = None;
    let mut retries: BTreeMap<u64, u32> = BTreeMap::new();
    let mut requeue: Vec<u64> = Vec::new();
    let mut slow = Set::new();
    let mut harness: Option<String> = None;
    println!(
        "{}: seed {} tier {} runs {} workers {}",
        prop.id,
        o.seed,
        if o.thorough { "thorough" } else { "quick" },
        total,
        o.workers
    );
    let mut stopped = false;
    loop {
        let limit = found.as_ref().map_or(u64::MAX, |f| f.0);
        while ps.len() < o.workers && harness.is_none() {
            if sys::wall() - t0 > o.wall {
                stopped = true;
            }
            let b = if let Some(b) = requeue.pop() {
                b
            } else if next < nbatch && next < limit && !stopped {
                next += 1;
                next - 1
            } else {
                break;
            };
            let lo = o.first + b * prop.batch;
            let hi = (lo + prop.batch).min(o.first + total);
            let entries: Vec<Entry> = (lo..hi).map(|i| Entry::Seed(seed_of(prop, o.seed, i))).collect();
            let slot = free.pop().unwrap();
            let patience = if slow.contains(&b) { PATIENCE_S } else { HANG_S };
            ps.push(spawn(prop, &entries, slot, false, patience));
            pb.push((b, entries));
        }
        if ps.is_empty() {
            break;
        }
        let i = wait_any(&mut ps);
        let p = ps.remove(i);
        let (b, entries) = pb.remove(i);
        let slot = p.slot;
        let out = finish(p, entries.len());
        free.push(slot);
        if let Some(h) = out.harness_error {
            let r = retries.entry(b).or_insert(0);
            *r += 1;
            if *r < 3 {
                requeue.push(b);
            } else {
                harness = Some(h);
            }
            continue;
        }
        if matches!(&out.violation, Some((_, v)) if v.class == "hang") && slow.insert(b) {
            println!("{}: batch {b} is slow, repeating it", prop.id);
            requeue.push(b);
            continue;
        }
        let mut dg = String::new();
        for l in &out.lines {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "D" if f.len() == 6 => {
                    evals += 1;
                    draws += f[5].parse::<u64>().unwrap_or(0);
                    let c = u64::from_str_radix(f[4], 16).unwrap_or(0);
                    cases.insert(c);
                    if f[3] == "1" {
                        nontriv.insert(c);
                    }
                    dg.push_str(f[2]);
                    dg.push(',');
                }
                "C" => *counters.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "S" => {
                    states.insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                _ => {}
            }
        }
        digests.insert(b, format!("{:x}", hash_bytes(dg.as_bytes())));
        if let Some((k, v)) = out.violation {
            let mut h = entries[..k].to_vec();
            h.push(Entry::Tape(mirrored_tape(slot)));
            if found.as_ref().is_none_or(|f| b < f.0) {
                found = Some((b, h, v));
            }
        }
    }
    if let Some(d) = &o.digest {
        let mut s = String::new();
        for (b, x) in &digests {
            let _ = writeln!(s, "{b} {x}");
        }
        let _ = std::fs::write(d, s);
    }
    counters.insert("slow_batches_repeated".into(), slow.len() as u64);
    let search_wall = sys::wall() - t0;
    if let Some(h) = &harness {
        if found.is_none() {
            eprintln!("{}: error of the harness: {h}", prop.id);
            return 2;
        }
    }
    let mut status = 0;
    if let Some((_, hist, v)) = found {
        status = 1;
        report(prop, o, hist, v);
    }
    // determinism probe: repeat some batches and compare event logs
    let mut probe = (0u64, 0u64);
    if status == 0 {
        let step = (nbatch / 6).max(1);
        let mut b = step / 2;
        while b < nbatch && probe.0 < 6 {
            if let Some(want) = digests.get(&b) {
                let lo = o.first + b * prop.batch;
                let hi = (lo + prop.batch).min(o.first + total);
                let entries: Vec<Entry> = (lo..hi).map(|i| Entry::Seed(seed_of(prop, o.seed, i))).collect();
                let out = run_history(prop, &entries, false);
                let mut dg = String::new();
                for l in &out.lines {
                    let f: Vec<&str> = l.split(' ').collect();
                    if f[0] == "D" && f.len() == 6 {
                        dg.push_str(f[2]);
                        dg.push(',');
                    }
                }
                probe.0 += 1;
                if format!("{:x}", hash_bytes(dg.as_bytes())) != *want {
                    probe.1 += 1;
                }
            }
            b += step;
        }
    }
    // a few runs, written out
    let mut samples = Vec::new();
    if status == 0 {
        for k in 0..3 {
            let idx = o.first + k * total / 3;
            let out = run_history(prop, &[Entry::Seed(seed_of(prop, o.seed, idx))], true);
            let t: Vec<String> = out
                .lines
                .iter()
                .filter_map(|l| l.strip_prefix("T "))
                .take(14)
                .map(|s| s.chars().take(300).collect())
                .collect();
            samples.push(format!("run {idx}: {}", t.join(" | ")));
        }
    }
    let wall = sys::wall() - t0;
    if let Some(path) = &o.evidence {
        let mut j = String::from("{\n");
        let _ = writeln!(j, " \"property\": \"{}\",", prop.id);
        let _ = writeln!(j, " \"tier\": \"{}\",", if o.thorough { "thorough" } else { "quick" });
        let _ = writeln!(j, " \"seed\": {},", o.seed);
        let _ = writeln!(j, " \"level\": \"exploration\",");
        let _ = writeln!(j, " \"coverage\": {{");
        let _ = writeln!(j, "  \"evaluations\": {evals},");
        let _ = writeln!(j, "  \"distinct_nontrivial\": {},", nontriv.len());
        let _ = writeln!(j, "  \"rule\": {},", jstr(prop.info.rule));
        let _ = writeln!(j, "  \"distinct_cases\": {},", cases.len());
        let _ = writeln!(j, "  \"distinct_states\": {},", states.len());
        let _ = writeln!(j, "  \"distinct_states_measure\": {},", jstr(prop.info.state_measure));
        let _ = writeln!(j, "  \"runs_per_hour_one_seed_each\": {},", (evals as f64 / search_wall.max(0.001) * 3600.0) as u64);
        let _ = writeln!(j, "  \"scheduler_and_workload_draws\": {draws},");
        let _ = writeln!(j, "  \"simulated_steps\": {},", counters.remove("steps").unwrap_or(0));
        let _ = writeln!(j, "  \"simulated_time\": \"the code under test has no timers and never waits; time advances by steps (calls into the simulated environment), the simulated clock only when read\",");
        let _ = writeln!(j, "  \"counts\": {{");
        let n = counters.len();
        for (i, (k, v)) in counters.iter().enumerate() {
            let _ = writeln!(j, "   {}: {v}{}", jstr(k), if i + 1 < n { "," } else { "" });
        }
        let _ = writeln!(j, "  }},");
        let arr = |x: &[&str]| x.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
        let _ = writeln!(j, "  \"real_components\": [{}],", arr(prop.info.real));
        let _ = writeln!(j, "  \"stub_components\": [{}],", arr(prop.info.stub));
        let _ = writeln!(
            j,
            "  \"determinism_probe\": {{\"batches_repeated\": {}, \"runs_repeated\": {}, \"event_logs_that_differed\": {}}},",
            probe.0,
            probe.0 * prop.batch,
            probe.1
        );
        let _ = writeln!(j, "  \"stopped_by_wall_limit\": {stopped},");
        for (k, v) in &o.extra {
            let _ = writeln!(j, "  {}: {},", jstr(k), jstr(v));
        }
        let s: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
        let _ = writeln!(j, "  \"samples\": [{}]", s.join(",\n   "));
        let _ = writeln!(j, " }},");
        let _ = writeln!(j, " \"assumptions\": [{}],", arr(prop.info.assumptions));
        let _ = writeln!(j, " \"wall_s\": {wall:.2},");
        let _ = writeln!(j, " \"violations\": {}", status);
        j.push_str("}\n");
        if let Err(e) = std::fs::write(path, j) {
            eprintln!("cannot write {path}: {e}");
            return 2;
        }
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} states, {:.1} s{}{}",
        prop.id,
        evals,
        nontriv.len(),
        states.len(),
        wall,
        if probe.1 > 0 { ", NOT DETERMINISTIC" } else { "" },
        if status == 0 { ", held" } else { "" },
    );
    status
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- minimisation ---------------------------------------------------------------------------

struct Min<'a> {
    prop: &'a Prop,
    class: String,
    tries: u32,
    deadline: f64,
}

impl Min<'_> {
    /// Does this history still show the same class of violation (at its last entry)?
    fn bad(&mut self, h: &[Entry]) -> bool {
        if self.tries == 0 || sys::wall() > self.deadline {
            return false;
        }
        self.tries -= 1;
        let o = run_history(self.prop, h, false);
        matches!(o.violation, Some((_, v)) if v.class == self.class)
    }
}

fn report(prop: &Prop, o: &Options, hist: Vec<Entry>, v: Violation) {
    println!("{}: found {}: {}", prop.id, v.class, v.detail.chars().take(300).collect::<String>());
    let slow = v.class == "hang";
    let mut m = Min {
        prop,
        class: v.class.clone(),
        tries: if slow { 3 } else { 6000 },
        deadline: sys::wall() + 60.0,
    };
    let mut h = vec![hist.last().unwrap().clone()];
    let mut stable = m.bad(&h);
    if !stable {
        // needs what earlier runs in the same process left behind
        h = hist;
        stable = m.bad(&h);
        if stable {
            let mut size = h.len() / 2;
            while size >= 1 {
                let mut i = 0;
                while i + size < h.len() {
                    let mut c = h.clone();
                    c.drain(i..i + size);
                    if m.bad(&c) {
                        h = c;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
            // turn the remaining seeds into tapes, so that they can shrink too
            for i in 0..h.len() {
                if let Entry::Seed(_) = h[i] {
                    let _ = run_history(prop, &h[i..=i], false);
                    let mut c = h.clone();
                    c[i] = Entry::Tape(mirrored_tape(0));
                    if m.bad(&c) {
                        h = c;
                    }
                }
            }
        }
    }
    if stable && !slow {
        loop {
            let before = cost(&h);
            for k in (0..h.len()).rev() {
                if let Entry::Tape(t) = h[k].clone() {
                    let t = shrink(t, |c| {
                        let mut hh = h.clone();
                        hh[k] = Entry::Tape(c.to_vec());
                        m.bad(&hh)
                    });
                    h[k] = Entry::Tape(t);
                }
            }
            if cost(&h) >= before || m.tries == 0 || sys::wall() > m.deadline {
                break;
            }
        }
    }
    let out = run_history(prop, &h, true);
    let (class, detail) = match &out.violation {
        Some((_, w)) => (w.class.clone(), w.detail.clone()),
        None => (v.class.clone(), v.detail.clone()),
    };
    let mut s = String::from("jdsim-replay 1\n");
    let _ = writeln!(s, "property {}", prop.id);
    let _ = writeln!(s, "verif_seed {}", o.seed);
    let _ = writeln!(s, "tier {}", if o.thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, "class {class}");
    let _ = writeln!(s, "detail {detail}");
    for e in &h {
        match e {
            Entry::Seed(x) => {
                let _ = writeln!(s, "seed {x}");
            }
            Entry::Tape(t) => {
                let t: Vec<String> = t.iter().map(u32::to_string).collect();
                let _ = writeln!(s, "tape {}", t.join(" "));
            }
        }
    }
    if !stable {
        s.push_str("note the violation did not repeat when the same process history was run again\n");
    }
    s.push_str("trace\n");
    for l in out.lines.iter().filter_map(|l| l.strip_prefix("T ")) {
        s.push_str(l);
        s.push('\n');
    }
    let new = crate::dict::new_words();
    if !new.is_empty() {
        let _ = write!(s, "dictionary\n{new}");
    }
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let path = format!("{}/{}-{:08x}.replay", o.replay_dir, prop.id, hash_bytes(s.as_bytes()) as u32);
    let _ = std::fs::write(&path, &s);
    // replay it in a fresh process
    let again = std::process::Command::new("/proc/self/exe")
        .arg("replay")
        .arg(&path)
        .arg("--quiet")
        .output();
    let ok = matches!(&again, Ok(x) if x.status.code() == Some(1));
    println!(
        "{}: minimised to {} run(s), {} draws; replay in a fresh process {}",
        prop.id,
        h.len(),
        cost(&h) / 1_000_000,
        if ok { "reproduces it" } else { "does not reproduce it" }
    );
    println!("  {class}: {}", detail.chars().take(400).collect::<String>());
    println!("VIOLATION property={} replay={}", prop.id, path);
    let _ = std::io::stdout().flush();
}

fn cost(h: &[Entry]) -> u64 {
    h.iter()
        .map(|e| match e {
            Entry::Seed(_) => 2_000_000_000,
            Entry::Tape(t) => t.len() as u64 * 1_000_000 + t.iter().map(|x| u64::from(*x).min(1000)).sum::<u64>() % 1_000_000,
        })
        .sum::<u64>()
        + h.len() as u64
}

fn shrink(mut t: Vec<u32>, mut bad: impl FnMut(&[u32]) -> bool) -> Vec<u32> {
    // drop the tail
    let mut lo = 0;
    let mut hi = t.len();
    while lo < hi {
        let mid = (lo + hi) / 2;
        if bad(&t[..mid]) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < t.len() && bad(&t[..hi]) {
        t.truncate(hi);
    }
    // delete chunks
    let mut size = (t.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < t.len() {
            let mut c = t.clone();
            c.drain(i..(i + size).min(c.len()));
            if bad(&c) {
                t = c;
            } else {
                // deleting often needs an earlier count or flag lowered as well
                i += size;
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    // zero chunks, then lower single values
    let mut size = (t.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < t.len() {
            let end = (i + size).min(t.len());
            if t[i..end].iter().any(|x| *x != 0) {
                let mut c = t.clone();
                c[i..end].fill(0);
                if bad(&c) {
                    t = c;
                }
            }
            i += size;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    for i in 0..t.len() {
        if t[i] == 0 {
            continue;
        }
        let mut lo = 0;
        let mut hi = t[i];
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            let mut c = t.clone();
            c[i] = mid;
            if bad(&c) {
                hi = mid;
                t = c;
            } else {
                lo = mid + 1;
            }
        }
    }
    while t.last() == Some(&0) {
        let c = t[..t.len() - 1].to_vec();
        if bad(&c) {
            t = c;
        } else {
            break;
        }
    }
    t
}

pub fn replay(path: &str, props: &[Prop], quiet: bool) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    crate::dict::init_from(s.rfind("\ndictionary\n").map_or("", |i| &s[i..]));
    let (mut id, mut class) = (String::new(), String::new());
    let mut h = Vec::new();
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x.to_string();
        } else if let Some(x) = l.strip_prefix("class ") {
            class = x.to_string();
        } else if let Some(x) = l.strip_prefix("seed ") {
            h.push(Entry::Seed(x.parse().unwrap_or(0)));
        } else if l == "tape" || l.starts_with("tape ") {
            h.push(Entry::Tape(l[4..].split_whitespace().filter_map(|x| x.parse().ok()).collect()));
        } else if l == "trace" {
            break;
        }
    }
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    map_shared(1);
    let out = run_history(p, &h, true);
    if !quiet {
        for l in out.lines.iter().filter_map(|l| l.strip_prefix("T ")) {
            println!("{l}");
        }
    }
    match out.violation {
        Some((_, v)) if v.class == class => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Some((_, v)) => {
            println!("a different violation: {}: {}", v.class, v.detail);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
