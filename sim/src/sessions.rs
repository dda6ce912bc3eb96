//! C07: several documents at once. A session is one document's life - parsing, perhaps cloning the
//! parser, rendering to a possibly faulty sink, perhaps ending early - cut into steps. Sessions run
//! interleaved on one thread or preemptively on several; each must end as it does alone in a
//! pristine process.

use crate::alloc::{inside, outside};
use crate::engine::{fail, Ctx, Res};
use crate::sched;
use crate::tape::{hash_bytes, mix, Tape};
use crate::world::*;
use jotdown::html::Renderer;
use jotdown::{Event, OffsetIter, Parser, Render};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Spec {
    pub doc: String,
    pub cfg: Cfg,
    pub unicode: bool,
    pub plan: Plan,
    pub stop: Option<usize>,
    pub clone_at: Option<usize>,
    pub spans: bool,
    pub own: bool,
    /// Collect all events before rendering.
    pub staged: bool,
    /// One call for all events instead of one for each.
    pub bulk: bool,
}

impl Spec {
    pub fn draw(t: &mut Tape, faults: bool) -> Self {
        let doc = if t.chance(1, 8) { gen().doc(t) } else { small_doc(t) };
        let cfg = Cfg::draw(t);
        let unicode = t.chance(1, 3);
        let mut plan = Plan::clean();
        if t.chance(1, 4) {
            plan.noise = Noise::draw(t);
        }
        if faults {
            match t.weighted(&[8, 3, 1]) {
                1 => {
                    plan.trigger = Trigger::Byte(t.usize(2 * doc.len() + 1));
                    plan.action = Action::Error(ErrSpec::draw(t));
                    plan.sticky = !t.chance(1, 2);
                }
                2 => plan.trigger = Trigger::Byte(t.usize(2 * doc.len() + 1)),
                _ => {}
            }
        }
        let stop = if faults && t.chance(1, 8) { Some(t.usize(60)) } else { None };
        let clone_at = if t.chance(1, 5) { Some(t.usize(40)) } else { None };
        Spec {
            doc,
            cfg,
            unicode,
            plan,
            stop,
            clone_at,
            spans: t.chance(1, 3),
            own: t.chance(1, 3),
            staged: t.chance(1, 4),
            bulk: t.chance(1, 3),
        }
    }
    /// Makes another version of the document, of the same length: lines, words or sections change
    /// places or one letter becomes another.
    pub fn edit(&mut self, t: &mut Tape) {
        let mut i = 0;
        while t.more(i, 1, 4, 1, 3) {
            i += 1;
            let how = t.weighted(&[3, 3, 3, 3]);
            let sep = ["\n", " ", "\n\n"];
            if let Some(sep) = sep.get(how) {
                let mut v: Vec<&str> = self.doc.split(sep).collect();
                // (the end of the text stays)
                let n = v.len() - usize::from(v.len() > 1 && v[v.len() - 1].is_empty());
                let (a, b) = (t.usize(n), t.usize(n));
                v.swap(a, b);
                self.doc = v.join(sep);
            } else {
                let v: Vec<(usize, char)> = self.doc.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).collect();
                if !v.is_empty() {
                    let (at, c) = v[t.usize(v.len())];
                    let other = v[t.usize(v.len())].1;
                    let to = [other, ((c as u8) ^ 0x20).max(b'0') as char, 'a', 'b', '1'][t.usize(5)];
                    let to = if to.is_ascii_alphanumeric() { to } else { 'x' };
                    self.doc.replace_range(at..=at, &to.to_string());
                }
            }
        }
    }
    pub fn faulty(&self) -> bool {
        self.plan.trigger != Trigger::Never || self.stop.is_some()
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Outcome {
    pub out: Vec<u8>,
    pub events: u64,
    pub hash: u64,
    pub end: String,
}

impl Outcome {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend_from_slice(&self.events.to_le_bytes());
        v.extend_from_slice(&self.hash.to_le_bytes());
        v.extend_from_slice(&(self.end.len() as u32).to_le_bytes());
        v.extend_from_slice(self.end.as_bytes());
        v.extend_from_slice(&self.out);
        v
    }
    pub fn decode(v: &[u8]) -> Option<Self> {
        let n = u32::from_le_bytes(v.get(16..20)?.try_into().ok()?) as usize;
        Some(Outcome {
            events: u64::from_le_bytes(v[0..8].try_into().ok()?),
            hash: u64::from_le_bytes(v[8..16].try_into().ok()?),
            end: String::from_utf8_lossy(v.get(20..20 + n)?).into_owned(),
            out: v[20 + n..].to_vec(),
        })
    }
    pub fn diff(&self, want: &Outcome) -> Option<(&'static str, String)> {
        if self.out != want.out {
            return Some(("output-differs", diff(&self.out, &want.out)));
        }
        if self.end != want.end {
            return Some(("ending-differs", format!("got {:?}, alone {:?}", self.end, want.end)));
        }
        if self.events != want.events || self.hash != want.hash {
            return Some(("events-differ", format!("{} events, alone {}, or other contents", self.events, want.events)));
        }
        None
    }
}

enum P<'s> {
    Plain(Parser<'s>),
    Spans(OffsetIter<'s>),
}

impl<'s> P<'s> {
    fn next(&mut self) -> Option<(Event<'s>, std::ops::Range<usize>)> {
        match self {
            P::Plain(p) => p.next().map(|e| (e, 0..0)),
            P::Spans(p) => p.next(),
        }
    }
}

pub struct Session<'s> {
    spec: &'s Spec,
    src: &'s str,
    parser: Option<P<'s>>,
    renderer: Option<Renderer<'s>>,
    staged: Vec<Event<'s>>,
    io: SimSink,
    fmt: SimFmt,
    n: usize,
    hash: u64,
    end: Option<String>,
    injected: u64,
}

impl<'s> Session<'s> {
    /// `src` has the contents of `spec.doc`, but may be shared.
    pub fn new(spec: &'s Spec, src: &'s str) -> Self {
        Session {
            spec,
            src,
            parser: None,
            renderer: None,
            staged: Vec::new(),
            io: SimSink::new(spec.plan),
            fmt: SimFmt::new(spec.plan),
            n: 0,
            hash: 0,
            end: None,
            injected: 0,
        }
    }
    pub fn with_parser(mut self, p: Parser<'s>) -> Self {
        self.parser = Some(P::Plain(p));
        self
    }
    fn feed(&mut self, e: Event<'s>) -> bool {
        let spec = self.spec;
        let r = self.renderer.get_or_insert_with(|| spec.cfg.renderer());
        let res = if spec.unicode {
            r.push_event(e, &mut self.fmt).map_err(|e| format!("{e:?}"))
        } else {
            r.write_event(e, &mut self.io).map_err(|e| format!("{e:?}"))
        };
        match res {
            Ok(()) => true,
            Err(e) => {
                outside(|| self.end = Some(format!("error {e}")));
                false
            }
        }
    }
    /// Performs one step; false when there is nothing left to do.
    pub fn step(&mut self) -> bool {
        if self.end.is_some() {
            return false;
        }
        let r = catch_unwind(AssertUnwindSafe(|| inside(|| self.step_inner())));
        if r.is_err() {
            let p = crate::engine::last_panic();
            if p.contains("injected") {
                self.end = Some("injected panic".into());
                self.injected = 1;
            } else {
                self.end = Some(format!("panic {p}"));
            }
            return false;
        }
        self.end.is_none()
    }
    fn step_inner(&mut self) {
        let spec = self.spec;
        if self.parser.is_none() {
            self.parser = Some(P::Plain(Parser::new(self.src)));
            if spec.spans {
                if let Some(P::Plain(p)) = self.parser.take() {
                    self.parser = Some(P::Spans(p.into_offset_iter()));
                }
            }
            return;
        }
        if spec.bulk && !spec.staged {
            return self.bulk();
        }
        if spec.stop == Some(self.n) {
            outside(|| self.end = Some("abandoned".into()));
            return;
        }
        if spec.clone_at == Some(self.n) {
            if let Some(P::Plain(p)) = &self.parser {
                let q = p.clone();
                self.parser = Some(P::Plain(q));
            }
        }
        let next = self.parser.as_mut().unwrap().next();
        let Some((e, span)) = next else {
            if spec.staged {
                let evs = std::mem::take(&mut self.staged);
                for e in evs {
                    if !self.feed(e) {
                        return;
                    }
                }
            }
            outside(|| self.end = Some("complete".into()));
            return;
        };
        self.n += 1;
        outside(|| {
            let d = format!("{e:?} {span:?}");
            self.hash = mix(self.hash, hash_bytes(d.as_bytes()));
        });
        sched::point(4);
        let e = if spec.own { e.clone() } else { e };
        if spec.staged {
            self.staged.push(e);
        } else {
            self.feed(e);
        }
    }
    fn bulk(&mut self) {
        let spec = self.spec;
        let mut stopped = false;
        let Session { parser, n, hash, io, fmt, renderer, .. } = self;
        let r = renderer.get_or_insert_with(|| spec.cfg.renderer());
        let src = std::iter::from_fn(|| {
            sched::point(5);
            reenter();
            if spec.stop == Some(*n) {
                stopped = true;
                return None;
            }
            if spec.clone_at == Some(*n) {
                if let Some(P::Plain(p)) = parser {
                    let q = p.clone();
                    *parser = Some(P::Plain(q));
                }
            }
            let (e, span) = parser.as_mut().unwrap().next()?;
            *n += 1;
            outside(|| {
                let d = format!("{e:?} {span:?}");
                *hash = mix(*hash, hash_bytes(d.as_bytes()));
            });
            Some(if spec.own { e.clone() } else { e })
        });
        let res = if spec.unicode {
            r.push_events(src, fmt).map_err(|e| format!("{e:?}"))
        } else {
            r.write_events(src, io).map_err(|e| format!("{e:?}"))
        };
        outside(|| {
            self.end = Some(match res {
                Ok(()) if stopped => "abandoned".into(),
                Ok(()) => "complete".into(),
                Err(e) => format!("error {e}"),
            })
        });
    }
    pub fn outcome(mut self) -> (Outcome, SimSink, SimFmt) {
        let out = if self.spec.unicode {
            self.fmt.got.clone().into_bytes()
        } else {
            self.io.got.clone()
        };
        let o = Outcome {
            out,
            events: self.n as u64,
            hash: self.hash,
            end: self.end.take().unwrap_or_default(),
        };
        (o, self.io, self.fmt)
    }
}

/// The entry point of pristine processes: one session, drawn from a tape, all alone. The words say
/// whether there are faults, whether the document is edited, how many words the session is drawn
/// from, and then these and what the edits are drawn from.
pub fn solo(words: &[u32]) -> Vec<u8> {
    let (base, edits) = words[3..].split_at(words[2] as usize);
    let mut spec = Spec::draw(&mut Tape::replay(base.to_vec()), words[0] == 1);
    if words[1] == 1 {
        spec.edit(&mut Tape::replay(edits.to_vec()));
    }
    let mut s = Session::new(&spec, &spec.doc);
    while s.step() {}
    s.outcome().0.encode()
}

/// Crosses the compiler's check that parsers and renderers may change threads; whether they may
/// is probed separately, so that losing `Send` is reported and not a failure to build the check.
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn get(self) -> T {
        self.0
    }
}

pub mod probe {
    use std::marker::PhantomData;
    pub struct Is<T>(PhantomData<T>);
    #[allow(dead_code)]
    pub trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> No for Is<T> {}
    pub struct IsSync<T>(PhantomData<T>);
    impl<T> No for IsSync<T> {}
    #[allow(dead_code)]
    impl<T: Send> Is<T> {
        pub const SEND: bool = true;
    }
    #[allow(dead_code)]
    impl<T: Sync> IsSync<T> {
        pub const SYNC: bool = true;
    }
}

/// Sessions of which one may be in the middle of a call while others are called.
struct Nest<'s> {
    /// Sessions that are not executing right now.
    sessions: Vec<Option<Box<Session<'s>>>>,
    done: Vec<Option<Session<'s>>>,
    tape: Tape,
    gap: u32,
    budget: u32,
    depth: u32,
    deepest: u32,
    nested: u64,
    sig: u64,
}

fn advance(nest: &RefCell<Nest>, i: usize, steps: usize) {
    let Some(mut s) = nest.borrow_mut().sessions[i].take() else { return };
    for _ in 0..steps {
        if !s.step() {
            nest.borrow_mut().done[i] = Some(*s);
            return;
        }
    }
    nest.borrow_mut().sessions[i] = Some(s);
}

fn visit(nest: &RefCell<Nest>) {
    let (i, steps) = {
        let mut n = nest.borrow_mut();
        if n.budget == 0 || n.depth >= 4 {
            return;
        }
        n.budget -= 1;
        let gap = n.gap;
        if !n.tape.chance(1, gap) {
            return;
        }
        let idle: Vec<usize> = (0..n.sessions.len()).filter(|i| n.sessions[*i].is_some()).collect();
        if idle.is_empty() {
            return;
        }
        let i = idle[n.tape.usize(idle.len())];
        let steps = [1, 3, 10, 1000][n.tape.usize(4)];
        n.depth += 1;
        n.deepest = n.deepest.max(n.depth);
        n.nested += 1;
        n.sig = mix(n.sig, (i * 8 + n.depth as usize) as u64 ^ (steps as u64) << 20);
        (i, steps)
    };
    advance(nest, i, steps);
    nest.borrow_mut().depth -= 1;
}

pub fn c07(c: &mut Ctx) -> Res {
    {
        #[allow(unused_imports)]
        use probe::No;
        if !probe::Is::<Parser<'static>>::SEND
            || !probe::Is::<Event<'static>>::SEND
            || !probe::Is::<Renderer<'static>>::SEND
            || !probe::Is::<OffsetIter<'static>>::SEND
        {
            return fail("not-send", "parser, events or renderer can no longer be moved to another thread");
        }
        if !probe::IsSync::<Parser<'static>>::SYNC || !probe::IsSync::<Event<'static>>::SYNC {
            return fail("not-sync", "parser or events can no longer be shared between threads");
        }
    }
    let k = 2 + c.tape.weighted(&[5, 3, 1]);
    let same_doc = c.tape.chance(1, 4);
    let faults = c.tape.chance(2, 3);
    let mut specs: Vec<Spec> = Vec::new();
    let mut want: Vec<Outcome> = Vec::new();
    let mut base = Vec::new();
    for i in 0..k {
        let words = if same_doc && i > 0 && !c.tape.chance(1, 3) {
            // the same document again
            specs.push(specs[0].clone());
            want.push(want[0].clone());
            continue;
        } else if i > 0 && c.tape.chance(1, 4) {
            // another version of the first document
            let mut s = specs[0].clone();
            let from = c.tape.used();
            s.edit(&mut c.tape);
            specs.push(s);
            c.count("sessions_with_an_edited_document", 1);
            let mut w = vec![u32::from(faults), 1, base.len() as u32];
            w.extend(&base);
            w.extend(c.tape.slice(from));
            w
        } else {
            let from = c.tape.used();
            let s = Spec::draw(&mut c.tape, faults);
            specs.push(s);
            let words = c.tape.slice(from);
            let mut w = vec![u32::from(faults), 0, words.len() as u32];
            w.extend(&words);
            if i == 0 {
                base = words;
            }
            w
        };
        let Some(o) = crate::zygote::ask(&words).and_then(|v| Outcome::decode(&v)) else {
            c.count("skipped.crashes_alone", 1);
            return Ok(());
        };
        if o.end.starts_with("panic") {
            c.count("skipped.baseline_fails", 1);
            return Ok(());
        }
        want.push(o);
    }
    c.count("sessions", k as u64);
    c.count("pristine_processes", k as u64);
    for (s, w) in specs.iter().zip(&want) {
        c.case = mix(c.case, hash_bytes(s.doc.as_bytes()) ^ s.cfg.hash() ^ w.events);
        c.note(|| format!("session: {s:?}; alone: {} events, {} bytes, {}", w.events, w.out.len(), w.end));
    }
    let mode = c.tape.weighted(&[3, 4, 3, 3]);
    let share_text = c.tape.chance(1, 2);
    let share_parser = same_doc && c.tape.chance(1, 2);
    let one_place = mode == 2 && c.tape.chance(1, 2);
    let src0: &str = &specs[0].doc;
    let texts: Vec<&str> = specs
        .iter()
        .map(|s| if share_text && s.doc == src0 { src0 } else { s.doc.as_str() })
        .collect();
    let base_parser = if share_parser {
        guard(|| Parser::new(src0)).ok()
    } else {
        None
    };
    let mk = |i: usize| {
        let s = Session::new(&specs[i], texts[i]);
        match &base_parser {
            // (a session that asks for spans converts its parser itself)
            Some(p) if specs[i].doc == src0 && !specs[i].spans => s.with_parser(inside(|| p.clone())),
            _ => s,
        }
    };
    let mut got: Vec<Option<Outcome>> = vec![None; k];
    match mode {
        0 => {
            // one thread, alternating; some sessions start late or pause for long
            c.count("mode.one_thread", 1);
            let mut ss: Vec<Option<Session>> = (0..k).map(|i| Some(mk(i))).collect();
            let mut live: Vec<usize> = (0..k).collect();
            let burst = [1, 2, 5, 20][c.tape.usize(4)];
            let mut sig = 0;
            let mut switches = 0u64;
            let mut draws = 0;
            while !live.is_empty() {
                let li = if draws < 300 { c.tape.usize(live.len()) } else { 0 };
                let n = if draws < 300 { 1 + c.tape.usize(burst) } else { 10 };
                draws += 1;
                let i = live[li];
                sig = mix(sig, (i * 100 + n) as u64);
                switches += 1;
                let mut done = false;
                for _ in 0..n {
                    if !ss[i].as_mut().unwrap().step() {
                        done = true;
                        break;
                    }
                }
                if done {
                    let (o, a, b) = inside(|| ss[i].take().unwrap().outcome());
                    a.tally(c);
                    b.tally(c);
                    got[i] = Some(o);
                    live.retain(|x| *x != i);
                }
            }
            c.count("switches", switches);
            c.state(sig);
            c.case = mix(c.case, sig);
            c.event(sig);
        }
        1 => {
            c.count("mode.threads", 1);
            let gap = [1, 3, 10, 40, 200, 1000][c.tape.usize(6)];
            let results: Arc<Mutex<Vec<(usize, Outcome, SimSink, SimFmt)>>> = Arc::new(Mutex::new(Vec::new()));
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
            for i in 0..k {
                let s = AssertSend(mk(i));
                let res = AssertSend(results.clone());
                let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                    let mut s = s.get();
                    let res = res.get();
                    while s.step() {}
                    let (o, a, b) = inside(|| s.outcome());
                    res.lock().unwrap().push((i, o, a, b));
                });
                // all threads are joined before anything they borrow goes away
                bodies.push(unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Box<dyn FnOnce() + Send + 'static>>(b) });
            }
            let rep = sched::run(&mut c.tape, gap, 400, 2 << 20, bodies);
            for (i, o, a, b) in results.lock().unwrap().drain(..) {
                a.tally(c);
                b.tally(c);
                got[i] = Some(o);
            }
            c.count("preemption_points", rep.points);
            c.count("switches", rep.switches);
            c.count("blocked_waits", rep.blocked);
            c.state(rep.hash);
            c.case = mix(c.case, rep.hash);
            c.event(rep.hash);
            c.event(rep.points);
            c.note(|| format!("threads: {} points, {} switches", rep.points, rep.switches));
        }
        3 => {
            // nested: while the library calls one session's sink or source, others proceed
            c.count("mode.nested", 1);
            let nest = Rc::new(RefCell::new(Nest {
                sessions: (0..k).map(|i| Some(Box::new(mk(i)))).collect(),
                done: (0..k).map(|_| None).collect(),
                tape: std::mem::replace(&mut c.tape, Tape::replay(Vec::new())),
                gap: 1,
                budget: 200,
                depth: 0,
                deepest: 0,
                nested: 0,
                sig: 0,
            }));
            {
                let mut n = nest.borrow_mut();
                n.gap = [2, 5, 20, 100][n.tape.usize(4)];
            }
            {
                let hook: Rc<dyn Fn() + '_> = Rc::new({
                    let nest = nest.clone();
                    move || visit(&nest)
                });
                // taken back before anything it borrows goes away
                let hook = unsafe { std::mem::transmute::<Rc<dyn Fn() + '_>, Rc<dyn Fn() + 'static>>(hook) };
                set_reenter(Some(hook));
                for i in 0..k {
                    advance(&nest, i, usize::MAX);
                }
                set_reenter(None);
            }
            let mut n = nest.borrow_mut();
            c.tape = std::mem::replace(&mut n.tape, Tape::replay(Vec::new()));
            for (i, d) in n.done.iter_mut().enumerate() {
                if let Some(s) = d.take() {
                    let (o, a, b) = inside(|| s.outcome());
                    a.tally(c);
                    b.tally(c);
                    got[i] = Some(o);
                }
            }
            c.count("nested_steps", n.nested);
            c.state(mix(n.sig, 3));
            c.case = mix(c.case, n.sig);
            c.event(n.sig);
            c.note(|| format!("nested: {} steps within calls of other sessions, {} deep", n.nested, n.deepest));
        }
        _ => {
            // one after the other, dropping each before the next begins
            c.count("mode.sequence", 1);
            let mut run = |i: usize, mut s: Session| {
                while s.step() {}
                let (o, a, b) = inside(|| s.outcome());
                a.tally(c);
                b.tally(c);
                got[i] = Some(o);
            };
            if one_place {
                // every document is read into the same buffer
                let mut place = String::with_capacity(texts.iter().map(|s| s.len()).max().unwrap_or(0));
                for i in 0..k {
                    place.clear();
                    place.push_str(texts[i]);
                    run(i, Session::new(&specs[i], &place));
                }
            } else {
                for i in 0..k {
                    run(i, mk(i));
                }
            }
            c.state(mix(99, c.case));
        }
    }
    c.nontrivial = true;
    for i in 0..k {
        let Some(g) = &got[i] else {
            return fail("session-lost", format!("session {i} did not finish"));
        };
        c.event_bytes(&g.out);
        if specs[i].faulty() {
            c.count("sessions_with_faults", 1);
        }
        if let Some((class, d)) = g.diff(&want[i]) {
            return fail(class, format!("session {i} (document {}): {d}", show(specs[i].doc.as_bytes())));
        }
    }
    // a long history of one of them
    if c.tape.chance(1, 12) {
        let i = c.tape.usize(k);
        let cost = 40 + specs[i].doc.len() + got[i].as_ref().map_or(0, |g| g.out.len());
        let n = [40, 70, 150, 300, 1100, 66_000][c.tape.weighted(&[6, 6, 6, 6, 4, 1])];
        let n = crate::dict::int_or(&mut c.tape, n, 100_000).min(2_000_000 / cost);
        c.count("long_histories", 1);
        c.count("sessions_in_long_histories", n as u64);
        c.note(|| format!("then session {i} {n} times"));
        for j in 0..n {
            let mut s = Session::new(&specs[i], &specs[i].doc);
            while s.step() {}
            let (o, _, _) = inside(|| s.outcome());
            if let Some((class, d)) = o.diff(&want[i]) {
                return fail(&format!("{class}-in-long-history"), format!("session {i} again, time {j}: {d}"));
            }
        }
    }
    // afterwards the process is as good as new
    let again = c.tape.usize(k);
    if !specs[again].faulty() {
        let mut s = Session::new(&specs[again], &specs[again].doc);
        while s.step() {}
        let (o, _, _) = inside(|| s.outcome());
        if let Some((_, d)) = o.diff(&want[again]) {
            return fail("process-tainted", format!("the same session again, alone, afterwards: {d}"));
        }
    }
    Ok(())
}
