//! C15: renderers written by others, behind the provided methods of `Render`.
//! C16: events lost, repeated or exchanged on their way from the parser to the renderer.

use crate::alloc::outside;
use crate::engine::{fail, Ctx, Res};
use crate::tape::{hash_bytes, mix, Rng};
use crate::world::*;
use jotdown::html::Renderer;
use jotdown::{Container, Event, Render};
use std::cell::Cell;
use std::fmt;
use std::io;

// ---- C15 ------------------------------------------------------------------------------------

/// What a renderer does with one event: some writes, and what it makes of a failing sink.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Temper {
    /// Returns the error at once.
    Prompt,
    /// Tries to write an error note first, then returns the error.
    Verbose,
    /// Returns the error at the end of the event, without writing more.
    Late,
}

struct Foreign<'s> {
    seed: u64,
    temper: Temper,
    /// Own failure at this event, after this many writes.
    own: Option<(usize, u32)>,
    inner: Option<Renderer<'s>>,
    seen: Vec<Event<'s>>,
    failed: bool,
}

const PIECES: &[&str] = &["", "x", "é", "日本", "<b>", "\n", "a longer piece of output, ", "🦀", "\0", "\u{feff}", "{}", "%s"];

impl<'s> Foreign<'s> {
    fn new(seed: u64, temper: Temper, own: Option<(usize, u32)>, inner: Option<Renderer<'s>>) -> Self {
        Foreign {
            seed,
            temper,
            own,
            inner,
            seen: Vec::new(),
            failed: false,
        }
    }

    fn writes(&mut self, i: usize, event: &Event<'s>, out: &mut dyn fmt::Write) -> fmt::Result {
        let mut rng = Rng::new(mix(self.seed, i as u64));
        let n = rng.next() % 5;
        for k in 0..n as u32 {
            if self.own == Some((i, k)) {
                return self.fail(out);
            }
            match rng.next() % 6 {
                0 => out.write_char(['a', 'é', '本', '🦀', '\n', '\u{80}'][(rng.next() % 6) as usize])?,
                1 => write!(out, "{i}:{:>4}|{:?}", k, PIECES[(rng.next() % 12) as usize])?,
                2 => match event {
                    Event::Str(s) => out.write_str(s)?,
                    e => write!(out, "[{e:?}]")?,
                },
                3 => out.write_fmt(format_args!("fixed"))?,
                _ => out.write_str(PIECES[(rng.next() % 12) as usize])?,
            }
        }
        if let Some(r) = &mut self.inner {
            r.push_event(event.clone(), &mut *out)?;
        }
        if self.own.is_some_and(|(e, k)| e == i && k >= n as u32) {
            return self.fail(out);
        }
        Ok(())
    }

    /// Its own failure, or that of a value it wants to write.
    fn fail(&self, out: &mut dyn fmt::Write) -> fmt::Result {
        struct Indescribable;
        impl fmt::Display for Indescribable {
            fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
                Err(fmt::Error)
            }
        }
        match self.seed % 3 {
            0 => Err(fmt::Error),
            1 => write!(out, "{Indescribable}"),
            _ => write!(out, "{}{Indescribable} and more", ""),
        }
    }
}

impl<'s> Render<'s> for Foreign<'s> {
    fn push_event<W: fmt::Write>(&mut self, event: Event<'s>, mut out: W) -> fmt::Result {
        let i = self.seen.len();
        outside(|| self.seen.push(event.clone()));
        if self.temper == Temper::Late {
            struct Hold<'a, W> {
                out: &'a mut W,
                failed: bool,
            }
            impl<W: fmt::Write> fmt::Write for Hold<'_, W> {
                fn write_str(&mut self, s: &str) -> fmt::Result {
                    if !self.failed {
                        self.failed = self.out.write_str(s).is_err();
                    }
                    Ok(())
                }
            }
            let mut h = Hold {
                out: &mut out,
                failed: false,
            };
            let r = self.writes(i, &event, &mut h);
            if h.failed || r.is_err() {
                self.failed = true;
                return Err(fmt::Error);
            }
            return Ok(());
        }
        let r = self.writes(i, &event, &mut out);
        if r.is_err() {
            self.failed = true;
            if self.temper == Temper::Verbose {
                let _ = out.write_str("(rendering failed)");
            }
        }
        r
    }
}

pub fn c15(c: &mut Ctx) -> Res {
    let doc = small_doc(&mut c.tape);
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {doc:?}"));
    let Some(mut ev) = events_of(c, &doc) else { return Ok(()) };
    // more documents may follow
    let mut docs = Vec::new();
    while c.tape.more(docs.len(), 0, 2, 1, 6) {
        docs.push(small_doc(&mut c.tape));
    }
    for d in &docs {
        let Some(e) = events_of(c, d) else { return Ok(()) };
        ev.extend(e);
        c.count("further_documents", 1);
        c.note(|| format!("and {d:?}"));
    }
    let seed = u64::from(c.tape.draw(1 << 20));
    let wraps = c.tape.chance(1, 3);
    if wraps && baseline(c, &doc, &cfg).is_none() {
        return Ok(());
    }
    if !wraps && c.tape.chance(1, 8) {
        // any events in any order, as far as this renderer is concerned
        let a = c.tape.usize(ev.len());
        let b = a + c.tape.usize(ev.len() + 1 - a);
        ev.rotate_left(a);
        ev.truncate((b - a).max(1));
        c.count("incomplete_documents", 1);
    }
    let inner = || wraps.then(|| cfg.renderer());
    c.note(|| format!("a renderer of our own, writes drawn from {seed}{}", if wraps { ", wraps the HTML renderer" } else { "" }));
    // what it writes when nothing fails, event by event, straight into a string
    let mut base = String::new();
    let mut ends = vec![0];
    {
        let mut r = Foreign::new(seed, Temper::Prompt, None, inner());
        for (i, e) in ev.iter().enumerate() {
            let x = guard(|| r.push_event(e.clone(), &mut base));
            if !matches!(x, Ok(Ok(()))) {
                c.count("skipped.baseline_fails", 1);
                return Ok(());
            }
            let _ = i;
            ends.push(base.len());
        }
    }
    c.case = mix(hash_bytes(base.as_bytes()), cfg.hash());
    let mut i = 0;
    while c.tape.more(i, 1, 6, 3, 4) {
        i += 1;
        let temper = [Temper::Prompt, Temper::Verbose, Temper::Late][c.tape.usize(3)];
        let own = if c.tape.chance(1, 3) {
            c.count("fault.renderer_fails", 1);
            Some((c.tape.usize(ev.len()), c.tape.draw(5)))
        } else {
            None
        };
        let spec = ErrSpec::draw(&mut c.tape);
        let trigger = match c.tape.weighted(&[2, 4, 2]) {
            0 => Trigger::Never,
            1 => Trigger::Byte(c.tape.usize(base.len() + 1)),
            _ => Trigger::Call(c.tape.usize(base.len() / 3 + 2) as u64),
        };
        let plan = Plan {
            noise: if c.tape.chance(1, 2) { Noise::draw(&mut c.tape) } else { Noise::default() },
            trigger,
            action: Action::Error(spec),
            // the error note must not replace the error
            sticky: c.tape.chance(1, 2),
        };
        let api = c.tape.draw(6);
        let k = 1 + c.tape.usize(5);
        let name = ["write_events", "write_event", "write_events in batches", "push_events", "push_event", "push_events in batches"][api as usize];
        c.note(|| format!("{name} (batches of {k}), temper {temper:?}, own failure {own:?}, sink {plan:?}"));
        let pulled = Cell::new(0usize);
        let mut sink = SimSink::new(plan);
        let mut fsink = SimFmt::new(plan);
        let mut r = Foreign::new(seed, temper, own, inner());
        let handles = Handle::live();
        let res: Result<Result<(), Option<io::Error>>, String> = guard(|| {
            let mut src = ev.iter().map(|e| {
                pulled.set(pulled.get() + 1);
                e.clone()
            });
            match api {
                0 => r.write_events(src, Lent(&mut sink, Handle::new())).map_err(Some),
                1 => src.try_for_each(|e| r.write_event(e, Lent(&mut sink, Handle::new()))).map_err(Some),
                2 => {
                    while pulled.get() < ev.len() {
                        r.write_events(src.by_ref().take(k), &mut sink).map_err(Some)?;
                    }
                    Ok(())
                }
                3 => r.push_events(src, Lent(&mut fsink, Handle::new())).map_err(|_| None),
                4 => src.try_for_each(|e| r.push_event(e, &mut fsink)).map_err(|_| None),
                _ => {
                    while pulled.get() < ev.len() {
                        r.push_events(src.by_ref().take(k), &mut fsink).map_err(|_| None)?;
                    }
                    Ok(())
                }
            }
        });
        let io = api < 3;
        let (got, fired) = if io { (sink.got.clone(), sink.fired) } else { (fsink.got.clone().into_bytes(), fsink.fired) };
        if io {
            sink.tally(c);
        } else {
            fsink.tally(c);
        }
        c.count(["api.write_events", "api.write_event", "api.write_events_batches", "api.push_events", "api.push_event", "api.push_events_batches"][api as usize], 1);
        c.event_bytes(&got);
        c.event(r.seen.len() as u64);
        c.case = mix(c.case, got.len() as u64 ^ spec.id() << 32 ^ u64::from(api) << 50);
        c.state(mix(mix(u64::from(api), temper as u64), mix(if fired > 0 { spec.id() } else { 9999 }, u64::from(own.is_some()))));
        let res = match res {
            Ok(x) => x,
            Err(p) => return fail("panic", format!("{name}: {p}")),
        };
        // each event once, in order, and none behind the one that failed
        if pulled.get() != r.seen.len() || r.seen != ev[..r.seen.len().min(ev.len())] {
            return fail("events-not-passed-on", format!("{name}: {} events taken, {} passed on", pulled.get(), r.seen.len()));
        }
        if Handle::live() != handles {
            return fail("sink-not-dropped", name);
        }
        match res {
            Ok(()) => {
                if fired > 0 || r.failed {
                    return fail("error-lost", format!("{name} returned Ok although {}", if fired > 0 { "the sink failed" } else { "the renderer failed" }));
                }
                if r.seen.len() != ev.len() {
                    return fail("events-not-passed-on", format!("{name} returned Ok after {} of {} events", r.seen.len(), ev.len()));
                }
                same("altered-output", name, &got, base.as_bytes())?;
            }
            Err(e) => {
                c.nontrivial = true;
                if !r.failed {
                    return fail("error-without-fault", format!("{name} returned {e:?}, but neither the sink nor the renderer failed"));
                }
                if let (Some(e), true) = (&e, fired > 0) {
                    if !spec.is(e) {
                        return fail("wrong-error", format!("{name}: sink failed with {spec:?}, caller got {e:?}"));
                    }
                }
                if fired == 0 {
                    // exactly what the renderer wrote before it failed
                    let mut want = String::new();
                    let mut r = Foreign::new(seed, temper, own, inner());
                    let _ = guard(|| ev.iter().try_for_each(|e| r.push_event(e.clone(), &mut want)));
                    same("altered-output", name, &got, want.as_bytes())?;
                } else if temper == Temper::Verbose {
                    // some output, then as much of the note as the sink took
                    let note = "(rendering failed)".as_bytes();
                    let want = &base.as_bytes()[..ends[r.seen.len()]];
                    if !(0..=common(&got, want)).any(|h| note.starts_with(&got[h..])) {
                        return fail("not-a-prefix", format!("{name}: {}", diff(&got, want)));
                    }
                } else {
                    let want = &base.as_bytes()[..ends[r.seen.len()]];
                    if !want.starts_with(&got) {
                        return fail("not-a-prefix", format!("{name}: {}", diff(&got, want)));
                    }
                    if let (Trigger::Byte(b), true) = (plan.trigger, io) {
                        if got.len() != b {
                            return fail("not-a-prefix", format!("{name}: device accepts {b} bytes, {} were delivered", got.len()));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn common(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

// ---- C16 ------------------------------------------------------------------------------------

pub fn c16(c: &mut Ctx) -> Res {
    let doc = if c.tape.chance(1, 4) {
        gen().doc(&mut c.tape)
    } else {
        small_doc(&mut c.tape)
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {doc:?}"));
    c.note(|| format!("options {cfg:?}"));
    let Some(base) = baseline(c, &doc, &cfg) else { return Ok(()) };
    let Some(ev) = events_of(c, &doc) else { return Ok(()) };
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    // the output that each event causes
    let mut out = String::new();
    let mut ends = vec![0];
    {
        let mut r = cfg.renderer();
        for e in &ev {
            if !matches!(guard(|| r.push_event(e.clone(), &mut out)), Ok(Ok(()))) {
                c.count("skipped.baseline_fails", 1);
                return Ok(());
            }
            ends.push(out.len());
        }
    }
    if out != base {
        // how it is split into calls is decided elsewhere (C05)
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    }
    // elements: [start, end) in the event sequence, and the element they are in
    struct Elem {
        from: usize,
        to: usize,
        parent: usize,
        leaf: bool,
        /// Holds or is a footnote, reference to one, or the document.
        fixed: bool,
    }
    let mut elems: Vec<Elem> = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    let mut in_note = 0;
    let mut anchor = None;
    for (i, e) in ev.iter().enumerate() {
        let parent = open.last().copied().unwrap_or(usize::MAX);
        match e {
            Event::Start(k, _) => {
                if matches!(k, Container::Footnote { .. }) {
                    in_note += 1;
                }
                let fixed = in_note > 0 || matches!(k, Container::Document);
                if fixed {
                    for o in &open {
                        elems[*o].fixed = true;
                    }
                }
                open.push(elems.len());
                elems.push(Elem {
                    from: i,
                    to: i,
                    parent,
                    leaf: false,
                    fixed,
                });
                if anchor.is_none() && in_note == 0 && out[ends[i]..ends[i + 1]].contains('<') {
                    anchor = Some(i);
                }
            }
            Event::End(k) => {
                if matches!(k, Container::Footnote { .. }) {
                    in_note -= 1;
                }
                let Some(o) = open.pop() else {
                    c.count("skipped.baseline_fails", 1);
                    return Ok(());
                };
                elems[o].to = i + 1;
            }
            e => {
                let fixed = in_note > 0 || matches!(e, Event::FootnoteReference(..));
                if fixed {
                    for o in &open {
                        elems[*o].fixed = true;
                    }
                }
                elems.push(Elem {
                    from: i,
                    to: i + 1,
                    parent,
                    leaf: true,
                    fixed,
                });
            }
        }
    }
    // what comes first is special: the first element is not put on a new line
    let Some(anchor) = anchor else {
        c.count("skipped.no_element", 1);
        return Ok(());
    };
    let free: Vec<usize> = (0..elems.len()).filter(|&i| !elems[i].fixed && elems[i].from > anchor).collect();
    if free.is_empty() || !open.is_empty() {
        c.count("skipped.no_element", 1);
        return Ok(());
    }
    let mut round = 0;
    while c.tape.more(round, 1, 4, 2, 3) {
        round += 1;
        // the stream, as a list of event numbers; faults pick elements that are still whole
        let mut order: Vec<usize> = (0..ev.len()).collect();
        let mut kinds = 0u64;
        let mut n = 0;
        let storm = c.tape.chance(1, 6);
        let most = if storm { 40 } else { 6 };
        while c.tape.more(n, 1, most, 3, 4) {
            n += 1;
            let a = &elems[free[c.tape.usize(free.len())]];
            let what = c.tape.weighted(&[4, 2, 2, 2]);
            // where it is now (once: what was repeated or lost stays so)
            let place = |order: &[usize], e: &Elem| {
                let p = order.iter().position(|x| *x == e.from)?;
                let len = e.to - e.from;
                (order.len() >= p + len && order[p..p + len].iter().zip(e.from..).all(|(x, y)| *x == y)).then_some(p)
            };
            let Some(p) = place(&order, a) else { continue };
            let len = a.to - a.from;
            let kind = format!("{:?}", ev[a.from]);
            let kind = kind.split([' ', '{', ',', ')']).next().unwrap_or("").to_string();
            match what {
                0 => {
                    order.drain(p..p + len);
                    c.count(if a.leaf { "fault.event_lost" } else { "fault.element_lost" }, 1);
                    c.note(|| format!("lost: events {}..{} {kind}", a.from, a.to));
                }
                1 => {
                    let times = [1, 1, 2, 10][c.tape.usize(4)];
                    let part: Vec<usize> = order[p..p + len].to_vec();
                    if part.len() * times > 5000 {
                        continue;
                    }
                    for _ in 0..times {
                        order.splice(p..p, part.iter().copied());
                    }
                    c.count(if a.leaf { "fault.event_repeated" } else { "fault.element_repeated" }, 1);
                    c.note(|| format!("repeated {times} times: events {}..{} {kind}", a.from, a.to));
                }
                2 => {
                    // all events of one kind are filtered out
                    let same: Vec<usize> = free
                        .iter()
                        .copied()
                        .filter(|i| std::mem::discriminant(&ev[elems[*i].from]) == std::mem::discriminant(&ev[a.from]) && elems[*i].leaf == a.leaf)
                        .filter(|i| match (&ev[elems[*i].from], &ev[a.from]) {
                            (Event::Start(x, _), Event::Start(y, _)) => std::mem::discriminant(x) == std::mem::discriminant(y),
                            _ => true,
                        })
                        .collect();
                    for i in same {
                        if let Some(p) = place(&order, &elems[i]) {
                            order.drain(p..p + elems[i].to - elems[i].from);
                        }
                    }
                    c.count("fault.kind_filtered_out", 1);
                    c.note(|| format!("all like this filtered out: {kind}"));
                }
                _ => {
                    // two elements in the same place swap
                    let sib: Vec<usize> = free.iter().copied().filter(|i| elems[*i].parent == a.parent && elems[*i].from != a.from).collect();
                    if sib.is_empty() {
                        continue;
                    }
                    let b = &elems[sib[c.tape.usize(sib.len())]];
                    let Some(q) = place(&order, b) else { continue };
                    let (x, y) = if p < q { ((p, len), (q, b.to - b.from)) } else { ((q, b.to - b.from), (p, len)) };
                    let mut new = order[..x.0].to_vec();
                    new.extend_from_slice(&order[y.0..y.0 + y.1]);
                    new.extend_from_slice(&order[x.0 + x.1..y.0]);
                    new.extend_from_slice(&order[x.0..x.0 + x.1]);
                    new.extend_from_slice(&order[y.0 + y.1..]);
                    order = new;
                    c.count("fault.reordered", 1);
                    c.note(|| format!("exchanged: events {}..{} and {}..{}", a.from, a.to, b.from, b.to));
                }
            }
            kinds |= 1 << (hash_bytes(kind.as_bytes()) % 60 + what as u64);
        }
        if order.len() > 200_000 {
            continue;
        }
        let mut want = String::new();
        for i in &order {
            want.push_str(&out[ends[*i]..ends[*i + 1]]);
        }
        c.nontrivial |= order.len() != ev.len() || order.iter().enumerate().any(|(i, x)| i != *x);
        c.case = mix(c.case, order.iter().fold(0, |h, x| mix(h, *x as u64)));
        c.state(mix(kinds, n as u64));
        let noise = Noise::draw(&mut c.tape);
        let fmt = c.tape.chance(1, 2);
        let mut sink = SimSink::new(Plan { noise, ..Plan::clean() });
        let r = guard(|| {
            let src = order.iter().map(|i| ev[*i].clone());
            if fmt {
                let mut s = String::new();
                cfg.renderer().push_events(src, &mut s).map(|()| s.into_bytes()).map_err(|_| io::Error::other("fmt"))
            } else {
                cfg.renderer().write_events(src, &mut sink).map(|()| Vec::new())
            }
        });
        let got = match r {
            Ok(Ok(s)) => {
                if fmt {
                    s
                } else {
                    sink.got.clone()
                }
            }
            Ok(Err(e)) => return fail("error-without-fault", format!("{e:?}")),
            Err(p) => return fail("panic", p),
        };
        sink.tally(c);
        c.event_bytes(&got);
        same("other-output-changed", "events were lost, repeated or exchanged", &got, want.as_bytes())?;
    }
    Ok(())
}
