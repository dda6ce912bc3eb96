//! C01-C05: one renderer, faulty sinks, sources that are watched.

use crate::alloc::outside;
use crate::engine::{fail, Ctx, Res};
use crate::tape::{hash_bytes, mix};
use crate::world::*;
use jotdown::{Event, Parser, Render};
use std::cell::{Cell, RefCell};
use std::io::{self, Write as _};
use std::rc::Rc;

/// Ways to render a whole document to a byte sink.
const IO_APIS: u32 = 9;

/// A sink handed over by value.
struct Owned(Rc<RefCell<SimSink>>, #[allow(dead_code)] Handle);
impl io::Write for Owned {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flush()
    }
}

fn render_io(doc: &str, cfg: &Cfg, api: u32, k: usize, sink: SimSink) -> (Result<io::Result<()>, String>, SimSink) {
    let sink = Rc::new(RefCell::new(sink));
    let s2 = sink.clone();
    let r = guard(move || {
        let mut r = cfg.renderer();
        let p = Parser::new(doc);
        match api {
            0 => r.write_events(p, Owned(s2, Handle::new())),
            1 => {
                let mut o = Owned(s2, Handle::new());
                for e in p {
                    r.write_event(e, &mut o)?;
                }
                Ok(())
            }
            2 => {
                let o: Box<dyn io::Write> = outside(|| Box::new(Owned(s2, Handle::new())) as _);
                r.write_events(p, o)
            }
            3 => {
                let mut o = outside(|| io::BufWriter::with_capacity(k, Owned(s2, Handle::new())));
                let x = r.write_events(p, &mut o).and_then(|()| o.flush());
                // what the buffer holds back must not be retried behind the caller's back
                outside(|| drop(o.into_parts()));
                x
            }
            4 => {
                let mut o = outside(|| io::LineWriter::with_capacity(k, Owned(s2, Handle::new())));
                r.write_events(p, &mut o).and_then(|()| o.flush())
            }
            5 => {
                let mut o = Owned(s2, Handle::new());
                let mut p = p.peekable();
                while p.peek().is_some() {
                    r.write_events(p.by_ref().take(k.max(1)), &mut o)?;
                }
                Ok(())
            }
            6 => r.write_events(p.into_offset_iter().map(|(e, _)| e), &mut Owned(s2, Handle::new())),
            7 => {
                for e in p {
                    r.write_event(e, Owned(s2.clone(), Handle::new()))?;
                }
                Ok(())
            }
            _ => {
                let ev: Vec<Event> = p.collect();
                let mut o = Owned(s2, Handle::new());
                r.write_events(ev.into_iter(), &mut o as &mut dyn io::Write)
            }
        }
    });
    let s = match Rc::try_unwrap(sink) {
        Ok(s) => s.into_inner(),
        Err(rc) => rc.replace(SimSink::new(Plan::clean())),
    };
    (r, s)
}

fn api_name(a: u32) -> &'static str {
    [
        "api.write_events_by_value",
        "api.write_event",
        "api.box_dyn",
        "api.bufwriter",
        "api.linewriter",
        "api.batches",
        "api.offset_iter",
        "api.write_event_by_value",
        "api.dyn_ref_stored",
    ][a as usize]
}

pub fn c01(c: &mut Ctx) -> Res {
    let doc = gen().doc(&mut c.tape);
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {:?}", doc));
    c.note(|| format!("options {cfg:?}"));
    let Some(base) = baseline(c, &doc, &cfg) else { return Ok(()) };
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    let mut i = 0;
    while c.tape.more(i, 1, 4, 3, 4) {
        i += 1;
        let noise = Noise::draw(&mut c.tape);
        let api = c.tape.draw(IO_APIS);
        let k = [1, 2, 3, 7, 16, 64, 1024, 8192][c.tape.usize(8)];
        let plan = Plan {
            noise,
            ..Plan::clean()
        };
        c.note(|| format!("render with {} (k={k}), sink noise {noise:?}", api_name(api)));
        let (r, s) = render_io(&doc, &cfg, api, k, SimSink::new(plan));
        s.tally(c);
        c.count(api_name(api), 1);
        c.case = mix(c.case, noise.seed ^ u64::from(noise.short * 8 + noise.eintr) ^ (k as u64) << 20 ^ u64::from(api) << 40);
        if s.shorts + s.interrupts > 0 {
            c.nontrivial = true;
        }
        c.event_bytes(&s.got);
        c.event(s.calls);
        c.state(mix(
            u64::from(noise.short * 8 + noise.eintr + 100 * api),
            mix(u64::from(64 - s.shorts.leading_zeros()), u64::from(64 - s.interrupts.leading_zeros())),
        ));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return fail("error-without-fault", format!("{} returned {e:?} although the sink never failed", api_name(api))),
            Err(p) => return fail("panic", format!("{}: {p}", api_name(api))),
        }
        same("altered-output", api_name(api), &s.got, base.as_bytes())?;
    }
    Ok(())
}

fn check_failed(c: &mut Ctx, what: &str, plan: &Plan, s: &SimSink, r: Result<io::Result<()>, String>, base: &[u8], exact: bool) -> Res {
    let Action::Error(spec) = plan.action else { unreachable!() };
    let r = match r {
        Ok(r) => r,
        Err(p) => return fail("panic", format!("{what}: {p}")),
    };
    if s.fired == 0 {
        if let Err(e) = r {
            return fail("error-without-fault", format!("{what} returned {e:?} although the sink never failed"));
        }
        return same("altered-output", what, &s.got, base);
    }
    c.nontrivial = true;
    c.state(mix(site(base, s.got.len()), spec.id()));
    match r {
        Ok(()) => {
            return fail(
                "error-lost",
                format!("{what} returned Ok although the sink failed ({spec:?}) after {} of {} bytes", s.got.len(), base.len()),
            )
        }
        Err(e) => {
            if !spec.is(&e) {
                return fail("wrong-error", format!("{what}: sink failed with {spec:?}, caller got {e:?}"));
            }
        }
    }
    if s.after > 0 {
        return fail(
            "write-after-error",
            format!("{what}: {} more write calls after the failure at byte {}", s.after, base.len().min(s.got.len())),
        );
    }
    if !base.starts_with(&s.got) {
        return fail("not-a-prefix", format!("{what}: {}", diff(&s.got, base)));
    }
    if exact {
        if let Trigger::Byte(b) = plan.trigger {
            if s.got.len() != b {
                return fail("not-a-prefix", format!("{what}: device accepts {b} bytes, {} were delivered", s.got.len()));
            }
        }
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) -> Res {
    let doc = if c.tape.chance(1, 6) {
        gen().doc(&mut c.tape)
    } else {
        small_doc(&mut c.tape)
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {:?}", doc));
    c.note(|| format!("options {cfg:?}"));
    let Some(base) = baseline(c, &doc, &cfg) else { return Ok(()) };
    let base = base.into_bytes();
    c.case = mix(hash_bytes(&base), cfg.hash());
    let mut i = 0;
    while c.tape.more(i, 1, 6, 3, 4) {
        i += 1;
        let mode = c.tape.weighted(&[12, 12, 8, 8, 1]);
        let err = ErrSpec::draw(&mut c.tape);
        let sticky = !c.tape.chance(1, 2);
        match mode {
            0 | 1 => {
                // one byte sink, one failure
                let noise = if c.tape.chance(1, 2) { Noise::draw(&mut c.tape) } else { Noise::default() };
                let api = c.tape.draw(IO_APIS);
                let k = [1, 2, 3, 7, 16, 64, 1024, 8192][c.tape.usize(8)];
                let trigger = if mode == 0 {
                    Trigger::Byte(c.tape.usize(base.len() + 1))
                } else {
                    Trigger::Call(c.tape.usize(base.len().min(3000) / 2 + 1) as u64)
                };
                let plan = Plan {
                    noise,
                    trigger,
                    action: Action::Error(err),
                    sticky,
                };
                c.note(|| format!("render with {} (k={k}), sink {plan:?}", api_name(api)));
                let (r, s) = render_io(&doc, &cfg, api, k, SimSink::new(plan));
                s.tally(c);
                c.count(api_name(api), 1);
                c.event_bytes(&s.got);
                c.event(s.calls);
                c.case = mix(c.case, s.got.len() as u64 ^ err.id() << 32);
                // a LineWriter's destructor writes what is left
                if api == 4 && s.fired > 0 {
                    match r {
                        Ok(Err(e)) if err.is(&e) => {}
                        Ok(Err(e)) => return fail("wrong-error", format!("linewriter: sink failed with {err:?}, caller got {e:?}")),
                        Ok(Ok(())) => return fail("error-lost", "linewriter: Ok although the sink failed"),
                        Err(p) => return fail("panic", p),
                    }
                } else {
                    check_failed(c, api_name(api), &plan, &s, r, &base, true)?;
                }
            }
            2 => {
                // the device fills up at every possible byte of the output in turn
                let step = 1 + base.len() / 300;
                let mut b = c.tape.usize(step);
                let api = c.tape.draw(2);
                c.note(|| format!("render with {} once for every {step}th device size, error {err:?}", api_name(api)));
                while b <= base.len() {
                    let plan = Plan {
                        noise: Noise::default(),
                        trigger: Trigger::Byte(b),
                        action: Action::Error(err),
                        sticky,
                    };
                    let (r, s) = render_io(&doc, &cfg, api, 0, SimSink::new(plan));
                    s.tally(c);
                    c.event(s.calls);
                    check_failed(c, &format!("{} with a device of {b} bytes", api_name(api)), &plan, &s, r, &base, true)?;
                    b += step;
                }
                c.case = mix(c.case, 7 + err.id());
            }
            4 => print_attributes(c)?,
            _ => {
                // unicode sink: failure at one or every call
                let sweep = c.tape.chance(1, 2);
                let per_event = c.tape.chance(1, 2);
                let by_byte = c.tape.chance(1, 2);
                let mut k = if sweep {
                    0
                } else {
                    c.tape.usize(base.len() + 1)
                };
                c.note(|| format!("render to a unicode sink failing at {} {k}{}", if by_byte { "byte" } else { "call" }, if sweep { " and all later ones in turn" } else { "" }));
                let step = if sweep { 1 + base.len() / 300 } else { usize::MAX };
                loop {
                    let plan = Plan {
                        noise: Noise::default(),
                        trigger: if by_byte { Trigger::Byte(k) } else { Trigger::Call(k as u64) },
                        action: Action::Error(err),
                        sticky,
                    };
                    let mut s = SimFmt::new(plan);
                    let r = guard(|| {
                        let mut r = cfg.renderer();
                        let mut p = Parser::new(&doc);
                        if per_event {
                            p.try_for_each(|e| r.push_event(e, &mut s))
                        } else {
                            r.push_events(p, &mut s)
                        }
                    });
                    s.tally(c);
                    c.event_bytes(s.got.as_bytes());
                    let what = format!("{} failing at {:?}", if per_event { "push_event" } else { "push_events" }, plan.trigger);
                    let r = match r {
                        Ok(r) => r,
                        Err(p) => return fail("panic", format!("{what}: {p}")),
                    };
                    if s.fired == 0 {
                        if r.is_err() {
                            return fail("error-without-fault", format!("{what}: the sink never failed"));
                        }
                        same("altered-output", &what, s.got.as_bytes(), &base)?;
                        break;
                    }
                    c.nontrivial = true;
                    c.state(mix(site(&base, s.got.len()), 999));
                    if r.is_ok() {
                        return fail("error-lost", format!("{what} returned Ok; {} of {} bytes delivered", s.got.len(), base.len()));
                    }
                    if s.after > 0 {
                        return fail("write-after-error", format!("{what}: {} more writes after the failure", s.after));
                    }
                    if !base.starts_with(s.got.as_bytes()) {
                        return fail("not-a-prefix", format!("{what}: {}", diff(s.got.as_bytes(), &base)));
                    }
                    let Some(n) = k.checked_add(step) else { break };
                    k = n;
                    if step == usize::MAX {
                        break;
                    }
                }
                c.case = mix(c.case, k as u64);
            }
        }
    }
    Ok(())
}

/// Attribute sets and values are printed to sinks as well.
fn print_attributes(c: &mut Ctx) -> Res {
    let mut text = String::new();
    let mut i = 0;
    while c.tape.more(i, 1, 4, 1, 2) {
        i += 1;
        text.push_str(&gen().attrs(&mut c.tape));
    }
    c.note(|| format!("attributes {text:?} printed to a unicode sink failing at every call in turn"));
    let whole = c.tape.chance(1, 2);
    let Ok(Ok(a)) = guard(|| jotdown::Attributes::try_from(&text[..])) else {
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    };
    let print = |out: &mut dyn std::fmt::Write| {
        if whole {
            write!(out, "{a:?}")
        } else {
            a.iter().try_for_each(|(_, v)| write!(out, "{v}"))
        }
    };
    let mut base = String::new();
    if !matches!(guard(|| print(&mut base)), Ok(Ok(()))) {
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    }
    c.count("attributes_printed", 1);
    for k in 0.. {
        let mut s = SimFmt::new(Plan {
            trigger: Trigger::Call(k),
            action: Action::Error(ErrSpec::Zero),
            sticky: k % 2 == 0,
            ..Plan::clean()
        });
        let r = match guard(|| print(&mut s)) {
            Ok(r) => r,
            Err(p) => return fail("panic", format!("printing attributes: {p}")),
        };
        s.tally(c);
        c.event_bytes(s.got.as_bytes());
        if s.fired == 0 {
            if r.is_err() {
                return fail("error-without-fault", "printing attributes: the sink never failed");
            }
            return same("altered-output", "attributes", s.got.as_bytes(), base.as_bytes());
        }
        c.nontrivial = true;
        if r.is_ok() {
            return fail("error-lost", format!("printing attributes returned Ok; {} of {} bytes delivered", s.got.len(), base.len()));
        }
        if s.after > 0 {
            return fail("write-after-error", format!("printing attributes: {} more writes after the failure", s.after));
        }
        if !base.starts_with(&s.got) {
            return fail("not-a-prefix", format!("attributes: {}", diff(s.got.as_bytes(), base.as_bytes())));
        }
    }
    Ok(())
}

// ---- C03 ------------------------------------------------------------------------------------

/// An event source that panics before yielding one of its events, once.
struct Source<'a, 's> {
    events: &'a [Event<'s>],
    pos: &'a Cell<usize>,
    end: usize,
    panic_at: &'a Cell<Option<usize>>,
    #[allow(dead_code)]
    handle: Handle,
}

impl<'s> Iterator for Source<'_, 's> {
    type Item = Event<'s>;
    fn next(&mut self) -> Option<Event<'s>> {
        outside(|| {
            let i = self.pos.get();
            if self.panic_at.get() == Some(i) {
                self.panic_at.set(None);
                std::panic::panic_any("injected source panic".to_string());
            }
            if i >= self.end {
                return None;
            }
            self.pos.set(i + 1);
            Some(self.events[i].clone())
        })
    }
}

/// One document over and over on the same renderer, ending the same way each time.
fn many<'s>(c: &mut Ctx, r: &mut jotdown::html::Renderer<'s>, ev: &[Event<'s>], len: usize) -> Res {
    let n = [20, 40, 70, 150, 300, 1100, 66_000][c.tape.weighted(&[6, 6, 6, 6, 6, 4, 1])];
    let n = crate::dict::int_or(&mut c.tape, n, 100_000).min(3_000_000 / (60 + 6 * ev.len() + len));
    let mut plan = Plan::clean();
    let mut stop = ev.len();
    let how = c.tape.weighted(&[2, 2, 2, 2]);
    match how {
        0 => {}
        1 => stop = c.tape.usize(ev.len() + 1),
        _ => {
            plan.trigger = Trigger::Byte(c.tape.usize(len + 1));
            plan.sticky = true;
            if how == 3 {
                plan.action = Action::Error(ErrSpec::draw(&mut c.tape));
            }
        }
    }
    let unicode = c.tape.chance(1, 2);
    c.count("long_histories", 1);
    c.count("documents_in_long_histories", n as u64);
    c.note(|| format!("document 0, {n} times, {}", ["complete", "abandoned", "the sink panics", "the sink fails"][how]));
    for _ in 0..n {
        let mut io = SimSink::new(plan);
        let mut fm = SimFmt::new(plan);
        let res = guard(|| {
            if unicode {
                let _ = r.push_events(ev[..stop].iter().cloned(), &mut fm);
            } else {
                let _ = r.write_events(ev[..stop].iter().cloned(), &mut io);
            }
        });
        match res {
            Err(p) if !p.contains("injected") => return fail("panic-after-failure", p),
            _ => {}
        }
    }
    Ok(())
}

pub fn c03(c: &mut Ctx) -> Res {
    history(c, true)
}

/// A history of documents on one renderer.
pub fn history(c: &mut Ctx, check: bool) -> Res {
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("one renderer, options {cfg:?}"));
    c.case = cfg.hash();
    let n = 2 + c.tape.weighted(&[4, 3, 2]);
    // some are two in one go
    let docs: Vec<Vec<String>> = (0..n)
        .map(|_| {
            let mut v = vec![if c.tape.chance(1, 10) {
                gen().doc(&mut c.tape)
            } else {
                small_doc(&mut c.tape)
            }];
            if c.tape.chance(1, 10) {
                v.push(small_doc(&mut c.tape));
            }
            v
        })
        .collect();
    let mut bases: Vec<String> = Vec::new();
    let mut evs: Vec<Vec<Event>> = Vec::new();
    for ds in &docs {
        let (mut base, mut ev) = (String::new(), Vec::new());
        for d in ds {
            let Some(b) = baseline(c, d, &cfg) else { return Ok(()) };
            let Some(e) = events_of(c, d) else { return Ok(()) };
            base.push_str(&b);
            ev.extend(e);
            c.case = mix(c.case, hash_bytes(d.as_bytes()));
        }
        c.count("documents_in_one_call", ds.len() as u64 - 1);
        bases.push(base);
        evs.push(ev);
    }
    let mut r = crate::alloc::inside(|| cfg.renderer());
    let mut faulted = false;
    for (j, ev) in evs.iter().enumerate() {
        let base = bases[j].as_bytes();
        let last = j + 1 == n;
        let fault = if last { 0 } else { c.tape.weighted(&[3, 6, 3, 3, 2, 3]) };
        let api = c.tape.draw(4);
        if check && last && c.tape.chance(1, 25) {
            many(c, &mut r, &evs[0], bases[0].len())?;
        }
        c.note(|| format!("document {j}: {:?}", docs[j]));
        let depth = {
            let (mut d, mut m) = (0usize, 0usize);
            for e in ev {
                match e {
                    Event::Start(..) => {
                        d += 1;
                        m = m.max(d);
                    }
                    Event::End(..) => d = d.saturating_sub(1),
                    _ => {}
                }
            }
            m
        };
        let line = (depth + cfg.level + 8) * cfg.string.len() + 60;
        let limit = 4 * base.len() + ev.len() * (300 + 8 * line) + 8192;
        let pos = Cell::new(0usize);
        let panic_at = Cell::new(None);
        let mut plan = Plan::clean();
        let mut stop = ev.len();
        match fault {
            1 | 2 => {
                plan.trigger = Trigger::Byte(c.tape.usize(base.len() + 1));
                plan.action = Action::Error(ErrSpec::draw(&mut c.tape));
                plan.sticky = c.tape.chance(1, 2);
            }
            3 => {
                plan.trigger = Trigger::Byte(c.tape.usize(base.len() + 1));
                plan.sticky = c.tape.chance(1, 4);
            }
            4 => panic_at.set(Some(c.tape.usize(ev.len() + 1))),
            5 => stop = c.tape.usize(ev.len() + 1),
            _ => {}
        }
        let then = if fault == 0 || fault == 5 { 0 } else { c.tape.weighted(&[2, 3, 1]) };
        // after the failure: stop, feed everything that is left, or feed some of it
        let more = match then {
            0 => 0,
            1 => usize::MAX,
            _ => c.tape.usize(ev.len() + 1),
        };
        c.note(|| {
            format!(
                "  {}, api {api}, then feed {more} more events",
                match fault {
                    0 => "rendered completely".to_string(),
                    1 | 2 => format!("sink fails: {:?} {:?} sticky {}", plan.trigger, plan.action, plan.sticky),
                    3 => format!("sink panics: {:?}", plan.trigger),
                    4 => format!("source panics before event {:?}", panic_at.get()),
                    _ => format!("abandoned after {stop} events"),
                }
            )
        });
        let mut io_sink = SimSink::new(plan);
        io_sink.limit = limit;
        let mut fmt_sink = SimFmt::new(plan);
        fmt_sink.limit = limit;
        let mut errors = 0;
        let mut left = more;
        let mut first = true;
        // each round is one call (or one event); after a failure, go on as decided
        let mut rounds = 0;
        loop {
            rounds += 1;
            let end = if first {
                stop
            } else {
                ev.len().min(pos.get().saturating_add(left))
            };
            let before = pos.get();
            let res = guard(|| {
                let src = Source {
                    events: ev,
                    pos: &pos,
                    end,
                    panic_at: &panic_at,
                    handle: Handle::new(),
                };
                match api {
                    0 => r.write_events(src, Lent(&mut io_sink, Handle::new())).map_err(|_| ()),
                    1 => r.push_events(src, Lent(&mut fmt_sink, Handle::new())).map_err(|_| ()),
                    2 => {
                        for e in src {
                            r.write_event(e, Lent(&mut io_sink, Handle::new())).map_err(|_| ())?;
                        }
                        Ok(())
                    }
                    _ => {
                        for e in src {
                            r.push_event(e, Lent(&mut fmt_sink, Handle::new())).map_err(|_| ())?;
                        }
                        Ok(())
                    }
                }
            });
            if !first {
                left = left.saturating_sub(pos.get() - before);
            }
            first = false;
            match &res {
                Ok(Ok(())) => {}
                Ok(Err(())) => errors += 1,
                Err(p) => {
                    errors += 1;
                    let injected = p.contains("injected");
                    if injected && p.contains("source") {
                        c.count("fault.source_panic", 1);
                    }
                    if !injected {
                        if errors > 1 || faulted || j > 0 {
                            return fail("panic-after-failure", format!("document {j}: {p}"));
                        }
                        return fail("panic", format!("document {j}: {p}"));
                    }
                }
            }
            if matches!(res, Ok(Ok(()))) || left == 0 || rounds > 4 * ev.len() + 50 {
                break;
            }
        }
        io_sink.tally(c);
        fmt_sink.tally(c);
        let (got, fired): (&[u8], u64) = if api % 2 == 0 {
            (&io_sink.got, io_sink.fired)
        } else {
            (fmt_sink.got.as_bytes(), fmt_sink.fired)
        };
        c.event_bytes(got);
        c.event(fired + 1000 * errors);
        if fault == 5 {
            c.count("fault.abandoned", 1);
        }
        if errors > 1 {
            c.count("fed_after_failure", errors - 1);
        }
        let ok = errors == 0 && stop == ev.len();
        if !ok {
            faulted = true;
            c.state(mix(site(base, got.len()), fault as u64 * 10 + then as u64));
        } else if j > 0 {
            c.nontrivial = true;
            c.count(if faulted { "fresh_after_failure" } else { "fresh_after_success" }, 1);
        }
        if check && ok {
            same(
                if j == 0 { "altered-output" } else { "tainted-document" },
                &format!("document {j} on a {} renderer", if j == 0 { "new" } else { "used" }),
                got,
                base,
            )?;
        }
    }
    Ok(())
}

// ---- C04 ------------------------------------------------------------------------------------

pub fn c04(c: &mut Ctx) -> Res {
    let doc = if c.tape.chance(1, 5) {
        gen().doc(&mut c.tape)
    } else {
        small_doc(&mut c.tape)
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {:?}", doc));
    c.note(|| format!("options {cfg:?}"));
    let Some(base) = baseline(c, &doc, &cfg) else { return Ok(()) };
    let Some(ev) = events_of(c, &doc) else { return Ok(()) };
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    // output after each event, event by event
    let mut cum = vec![0usize];
    {
        let mut s = String::new();
        let r = guard(|| {
            let mut r = cfg.renderer();
            for e in &ev {
                let _ = r.push_event(e.clone(), &mut s);
                outside(|| cum.push(s.len()));
            }
        });
        if r.is_err() {
            return Ok(());
        }
    }
    let mut i = 0;
    while c.tape.more(i, 0, 3, 1, 2) {
        i += 1;
        let k = 1 + c.tape.usize(ev.len());
        withheld(&cfg, &ev, k)?;
        c.count("probes_for_withheld_output", 1);
    }
    let mut i = 0;
    while c.tape.more(i, 1, 5, 3, 4) {
        i += 1;
        let api = c.tape.draw(4);
        let from_parser = c.tape.chance(1, 2);
        let noise = if c.tape.chance(1, 3) { Noise::draw(&mut c.tape) } else { Noise::default() };
        let mut plan = Plan {
            noise,
            ..Plan::clean()
        };
        if c.tape.chance(3, 4) {
            plan.trigger = Trigger::Byte(c.tape.usize(base.len() + 1));
            plan.action = Action::Error(ErrSpec::draw(&mut c.tape));
            plan.sticky = !c.tape.chance(1, 2);
        }
        // a source that reports "nothing yet" (None) in the middle: the call must return then
        let pause = if c.tape.chance(1, 3) { Some(c.tape.usize(ev.len() + 1)) } else { None };
        c.note(|| format!("render with api {api}, sink {plan:?}, source {} pausing at {pause:?}", if from_parser { "parser" } else { "stored events" }));
        let io_sink = Rc::new(RefCell::new(SimSink::new(plan)));
        let fmt_sink = Rc::new(RefCell::new(SimFmt::new(plan)));
        struct F(Rc<RefCell<SimFmt>>);
        impl std::fmt::Write for F {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0.borrow_mut().write_str(s)
            }
        }
        let pulled = Rc::new(Cell::new(0usize));
        // what the source says about its length: nothing, everything, or something in between
        let hint = c.tape.draw(3);
        let slack = c.tape.usize(4);
        let tell: Box<dyn Fn() -> (usize, Option<usize>)> = {
            let pulled = pulled.clone();
            let paused_at = pause;
            let len = ev.len();
            Box::new(move || {
                let i = pulled.get();
                let left = match paused_at {
                    Some(p) if i <= p => p.min(len) - i,
                    _ => len.saturating_sub(i),
                };
                match hint {
                    0 => (0, None),
                    1 => (left, Some(left)),
                    _ => (left.saturating_sub(slack), if slack == 0 { None } else { Some(left + slack) }),
                }
            })
        };
        let late: Cell<Option<(usize, usize)>> = Cell::new(None);
        let paused = Cell::new(false);
        let parser = RefCell::new(guard(|| Parser::new(&doc)).map_err(|_| ()).ok());
        let mut fetch = || {
            // called by the library for every event it takes
            let have = outside(|| {
                let n = if api % 2 == 0 {
                    io_sink.borrow().got.len()
                } else {
                    fmt_sink.borrow().got.len()
                };
                let i = pulled.get();
                if i < cum.len() && n != cum[i] && late.get().is_none() {
                    late.set(Some((i, n)));
                }
                n
            });
            let _ = have;
            let i = pulled.get();
            if pause == Some(i) && !paused.get() {
                paused.set(true);
                return None;
            }
            pulled.set(i + 1);
            if from_parser {
                let e = parser.borrow_mut().as_mut().and_then(Iterator::next);
                if e.is_none() {
                    pulled.set(i);
                    paused.set(true);
                }
                e
            } else {
                let e = outside(|| ev.get(i).cloned());
                if e.is_none() {
                    pulled.set(i);
                    paused.set(true);
                }
                e
            }
        };
        let mut r = crate::alloc::inside(|| cfg.renderer());
        let res = guard(|| {
            let src = Hinted { next: &mut fetch, hint: tell };
            match api {
                0 => r.write_events(src, Owned(io_sink.clone(), Handle::new())).map_err(|_| ()),
                1 => r.push_events(src, F(fmt_sink.clone())).map_err(|_| ()),
                2 => {
                    let mut o = Owned(io_sink.clone(), Handle::new());
                    let mut src = src;
                    src.try_for_each(|e| r.write_event(e, &mut o)).map_err(|_| ())
                }
                _ => {
                    let mut o = F(fmt_sink.clone());
                    let mut src = src;
                    src.try_for_each(|e| r.push_event(e, &mut o)).map_err(|_| ())
                }
            }
        });
        let (got, fired) = if api % 2 == 0 {
            let s = io_sink.borrow();
            s.tally(c);
            (s.got.clone(), s.fired)
        } else {
            let s = fmt_sink.borrow();
            s.tally(c);
            (s.got.clone().into_bytes(), s.fired)
        };
        c.event_bytes(&got);
        c.event(pulled.get() as u64);
        c.case = mix(c.case, (got.len() as u64) << 20 ^ pulled.get() as u64 ^ u64::from(api) << 50);
        c.count("events_pulled", pulled.get() as u64);
        let res = match res {
            Ok(r) => r,
            Err(p) => return fail("panic", p),
        };
        if let Some((i, n)) = late.get() {
            return fail(
                "output-not-delivered-before-next-event",
                format!("event {i} was taken from the source when the sink had {n} bytes, but the events before it make {} bytes", cum[i]),
            );
        }
        let took = pulled.get();
        if fired > 0 {
            c.nontrivial = true;
            // the failing event: the first whose output does not fit
            let Trigger::Byte(b) = plan.trigger else { unreachable!() };
            let j = (0..ev.len()).find(|j| cum[j + 1] > b).unwrap_or(ev.len() - 1);
            c.state(mix(site(base.as_bytes(), b), u64::from(api)));
            if res.is_ok() {
                return fail("error-lost", format!("Ok although the sink failed at byte {b}"));
            }
            if took != j + 1 {
                return fail(
                    "wrong-number-of-events-taken",
                    format!("the sink failed in event {j}, but {took} events were taken from the source"),
                );
            }
            if from_parser {
                let rest: Option<Vec<Event>> = guard(|| parser.borrow_mut().as_mut().map(|p| p.collect::<Vec<_>>())).ok().flatten();
                if rest.as_deref() != Some(&ev[j + 1..]) {
                    return fail("remaining-events-damaged", format!("after a failure in event {j} the parser did not continue with the next event"));
                }
            }
        } else {
            let want = pause.map_or(ev.len(), |p| p.min(ev.len()));
            if took != want || res.is_err() {
                return fail("wrong-number-of-events-taken", format!("the source had {want} events, {took} were taken, result {res:?}"));
            }
            same("output-not-delivered", "at the end of the call", &got, &base.as_bytes()[..cum[want]])?;
            if pause.is_some() {
                c.nontrivial = true;
                c.count("fault.source_pauses", 1);
                // later, the rest arrives
                let mut s = String::new();
                let _ = guard(|| r.push_events(ev[want..].iter().cloned(), &mut s));
                let mut all = got;
                all.extend_from_slice(s.as_bytes());
                same("altered-output", "after the source paused", &all, base.as_bytes())?;
            }
        }
    }
    Ok(())
}

/// What the first `k` events of a document cause must be out before the next event comes. Whatever
/// two different continuations have in common at their beginning was known before, and held back.
fn withheld(cfg: &Cfg, ev: &[Event], k: usize) -> Res {
    let next = [Event::Str("q".into()), Event::Symbol("z".into()), Event::Ellipsis];
    let outs: Vec<String> = next
        .iter()
        .map_while(|e| {
            guard(|| {
                let mut r = cfg.renderer();
                let mut s = String::new();
                for e in &ev[..k] {
                    let _ = r.push_event(e.clone(), &mut s);
                }
                s.clear();
                let _ = r.push_event(e.clone(), &mut s);
                s
            })
            .ok()
        })
        .collect();
    if outs.len() < next.len() {
        return Ok(());
    }
    let same = outs[0].bytes().zip(outs[1].bytes()).zip(outs[2].bytes()).take_while(|((a, b), c)| a == b && b == c).count();
    if same > 0 {
        return fail(
            "output-withheld",
            format!("whatever follows event {} ({:?}), its output begins with {:?}: that was not written with the event that caused it", k - 1, ev[k - 1], show(&outs[0].as_bytes()[..same])),
        );
    }
    Ok(())
}

/// An event source that tells more or less about how many events are left.
struct Hinted<F> {
    next: F,
    hint: Box<dyn Fn() -> (usize, Option<usize>)>,
}

impl<'s, F: FnMut() -> Option<Event<'s>>> Iterator for Hinted<F> {
    type Item = Event<'s>;
    fn next(&mut self) -> Option<Event<'s>> {
        (self.next)()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        outside(|| (self.hint)())
    }
}

// ---- C05 ------------------------------------------------------------------------------------

pub fn c05(c: &mut Ctx) -> Res {
    let doc = if c.tape.chance(1, 5) {
        gen().doc(&mut c.tape)
    } else {
        small_doc(&mut c.tape)
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {:?}", doc));
    c.note(|| format!("options {cfg:?}"));
    let Some(mut base) = baseline(c, &doc, &cfg) else { return Ok(()) };
    let Some(mut ev) = events_of(c, &doc) else { return Ok(()) };
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    // sometimes another document follows directly
    let second = c.tape.chance(1, 10).then(|| small_doc(&mut c.tape));
    if let Some(d) = &second {
        let Some(e) = events_of(c, d) else { return Ok(()) };
        ev.extend(e);
        let mut s = String::new();
        match guard(|| cfg.renderer().push_events(ev.iter().cloned(), &mut s)) {
            Ok(Ok(())) => base = s,
            _ => return Ok(()),
        }
        c.case = mix(c.case, hash_bytes(d.as_bytes()));
        c.count("two_documents", 1);
        c.note(|| format!("and {d:?}"));
    }
    let cum = {
        let mut cum = vec![0usize];
        let mut s = String::new();
        let r = guard(|| {
            let mut r = cfg.renderer();
            for e in &ev {
                let _ = r.push_event(e.clone(), &mut s);
                outside(|| cum.push(s.len()));
            }
        });
        if r.is_err() {
            return fail("panic", "rendering event by event panics, rendering in one call does not");
        }
        same("split-differs", "push_event for each event", s.as_bytes(), base.as_bytes())?;
        cum
    };
    let mut i = 0;
    while c.tape.more(i, 0, 3, 1, 2) {
        i += 1;
        let k = 1 + c.tape.usize(ev.len());
        withheld(&cfg, &ev, k)?;
        c.count("probes_for_withheld_output", 1);
    }
    let mut i = 0;
    while c.tape.more(i, 1, 3, 2, 3) {
        i += 1;
        let nsinks = 1 + c.tape.usize(3);
        let mut sinks: Vec<SimSink> = (0..nsinks)
            .map(|_| {
                let noise = if c.tape.chance(1, 3) { Noise::draw(&mut c.tape) } else { Noise::default() };
                SimSink::new(Plan {
                    noise,
                    ..Plan::clean()
                })
            })
            .collect();
        let mut want: Vec<Vec<u8>> = vec![Vec::new(); nsinks];
        let mut all: Vec<u8> = Vec::new();
        let style = c.tape.usize(3);
        let from_parser = c.tape.chance(1, 2);
        let mut parser = guard(|| Parser::new(&doc).chain(second.iter().flat_map(|d| Parser::new(d)))).ok();
        let mut r = crate::alloc::inside(|| cfg.renderer());
        let mut at = 0;
        let mut calls = 0;
        let mut sig = 0u64;
        c.note(|| format!("split with {nsinks} byte sinks, from {}", if from_parser { "the parser" } else { "stored events" }));
        while at < ev.len() || (calls == 0) {
            let n = match style {
                0 => 1 + c.tape.usize(3),
                1 => c.tape.usize(2 * ev.len() / 3 + 2),
                _ => {
                    if c.tape.chance(1, 3) {
                        c.tape.usize(12)
                    } else {
                        1
                    }
                }
            };
            calls += 1;
            if calls > 4 * ev.len() + 20 {
                break;
            }
            let n = n.min(ev.len() - at);
            let api = c.tape.draw(4);
            let si = c.tape.usize(nsinks);
            sig = mix(sig, (n as u64) << 8 | u64::from(api) << 4 | si as u64);
            c.note(|| format!("  {n} event(s) with {}", ["push_event", "push_events", "write_event", "write_events"][api as usize]));
            let slice = &ev[at..at + n];
            let mut s = String::new();
            let sink = &mut sinks[si];
            let before = sink.got.len();
            let res = guard(|| {
                let mut buf = Vec::new();
                let it: Box<dyn Iterator<Item = Event>> = if from_parser {
                    buf.extend(parser.as_mut().unwrap().by_ref().take(n));
                    Box::new(buf.into_iter())
                } else {
                    Box::new(slice.iter().cloned())
                };
                match api {
                    0 => {
                        for e in it {
                            r.push_event(e, &mut s).map_err(|e| e.to_string())?;
                        }
                        Ok(())
                    }
                    1 => r.push_events(it, &mut s).map_err(|e| e.to_string()),
                    2 => {
                        for e in it {
                            r.write_event(e, &mut *sink).map_err(|e| e.to_string())?;
                        }
                        Ok(())
                    }
                    _ => r.write_events(it, &mut *sink).map_err(|e| e.to_string()),
                }
            });
            let piece: Vec<u8> = if api < 2 {
                s.into_bytes()
            } else {
                sinks[si].got[before..].to_vec()
            };
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return fail("error-without-fault", e),
                Err(p) => return fail("panic", p),
            }
            let expect = &base.as_bytes()[cum[at]..cum[at + n]];
            same("output-in-wrong-call", &format!("events {at}..{}", at + n), &piece, expect)?;
            if api >= 2 {
                want[si].extend_from_slice(expect);
            }
            all.extend_from_slice(&piece);
            at += n;
        }
        if at < ev.len() {
            continue;
        }
        c.count("calls", calls as u64);
        c.case = mix(c.case, sig);
        c.state(mix(sig, 5));
        c.event(sig);
        c.event_bytes(&all);
        if calls > 1 {
            c.nontrivial = true;
        }
        same("split-differs", "all pieces together", &all, base.as_bytes())?;
        for (s, w) in sinks.iter().zip(&want) {
            s.tally(c);
            same("output-in-wrong-sink", "one of the sinks", &s.got, w)?;
        }
    }
    Ok(())
}
