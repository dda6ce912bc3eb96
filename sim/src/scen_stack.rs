//! C19: threads with little stack.

use crate::alloc::outside;
use crate::engine::{fail, Ctx, Res};
use crate::scen_lib::dense;
use crate::scen_mem::{repetitive, KINDS};
use crate::tape::{hash_bytes, mix};
use crate::world::*;
use jotdown::{AttributeValue, Attributes, Event, Parser, Render};
use std::{fmt, io};

/// Stack allowed: to begin with, and per level of nested blocks.
const BASE: usize = 64 << 10;
const PER_LEVEL: usize = 8 << 10;
const MAX_LEVELS: usize = 250;

const PATTERN: u64 = 0x5AC7_5AC7_5AC7_5AC7;

#[inline(never)]
fn paint(top: usize, low: usize) {
    let mut p = low;
    while p < top {
        unsafe { (p as *mut u64).write_volatile(PATTERN) };
        p += 8;
    }
}

#[inline(never)]
fn scan(top: usize, low: usize) -> usize {
    let mut p = low;
    while p < top && unsafe { (p as *const u64).read_volatile() } == PATTERN {
        p += 8;
    }
    p
}

/// Runs on a thread of its own, whose stack ends not far behind what is allowed. Returns how much of it was used.
fn measured<R: Send>(allowed: usize, f: impl FnOnce() -> R + Send) -> (R, usize) {
    let go = || {
        let here = 0u64;
        let base = (&raw const here as usize) & !15;
        // the frame of this function and of those that paint stay clear
        let (top, low) = (base - 2048, base - allowed - allowed / 2);
        paint(top, low);
        let r = f();
        let used = base - scan(top, low);
        (r, used)
    };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 * allowed + (64 << 10)).spawn_scoped(s, go).expect("spawn").join().expect("harness thread"))
}

/// How deep blocks are nested at most, and the number of events.
fn extent(text: &str) -> Option<(usize, usize)> {
    let go = || {
        guard(|| {
            let (mut depth, mut max, mut n) = (0usize, 0, 0);
            for e in Parser::new(text) {
                n += 1;
                match e {
                    Event::Start(c, _) if c.is_block() => depth += 1,
                    Event::End(c) if c.is_block() => depth = depth.saturating_sub(1),
                    _ => {}
                }
                max = max.max(depth);
            }
            (max, n)
        })
        .ok()
    };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, go).expect("spawn").join().expect("harness thread"))
}

/// Takes so many bytes.
struct Dev {
    room: usize,
    panics: bool,
}

impl Dev {
    fn take(&mut self, n: usize) -> bool {
        if n > self.room && self.panics {
            outside(|| std::panic::panic_any("the sink panics"));
        }
        let ok = n <= self.room;
        self.room = self.room.saturating_sub(n);
        ok
    }
}

impl fmt::Write for Dev {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s.len()).then_some(()).ok_or(fmt::Error)
    }
}

impl io::Write for Dev {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.take(b.len()).then_some(b.len()).ok_or_else(|| io::ErrorKind::StorageFull.into())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const HOW: [&str; 12] = [
    "each event",
    "collect",
    "offsets",
    "clone, both to the end",
    "clone, dropped",
    "push_events",
    "write_events",
    "push_event each, on after a failure",
    "write_event each, on after a failure",
    "render what was collected",
    "last, nth, count",
    "attributes",
];

struct Plan {
    how: usize,
    /// The event at which something happens.
    at: usize,
    room: usize,
    panics: bool,
}

fn work(doc: &str, cfg: &Cfg, p: &Plan) {
    let mut dev = Dev {
        room: p.room,
        panics: p.panics,
    };
    match p.how {
        0 => Parser::new(doc).for_each(drop),
        1 => drop(Parser::new(doc).collect::<Vec<_>>()),
        2 => {
            let mut it = Parser::new(doc);
            it.by_ref().take(p.at).for_each(drop);
            it.into_offset_iter().for_each(drop);
        }
        3 => {
            let mut it = Parser::new(doc);
            it.by_ref().take(p.at).for_each(drop);
            it.clone().for_each(drop);
            it.for_each(drop);
        }
        4 => {
            let mut it = Parser::new(doc);
            it.by_ref().take(p.at).for_each(drop);
            drop(it.clone());
        }
        5 => drop(cfg.renderer().push_events(Parser::new(doc), &mut dev)),
        6 => drop(cfg.renderer().write_events(Parser::new(doc), &mut dev)),
        7 => {
            let mut r = cfg.renderer();
            for e in Parser::new(doc) {
                let _ = r.push_event(e, &mut dev);
            }
        }
        8 => {
            let mut r = cfg.renderer();
            for e in Parser::new(doc) {
                let _ = r.write_event(e, &mut dev);
            }
        }
        9 => {
            let v: Vec<Event> = Parser::new(doc).collect();
            drop(v.clone());
            let _ = cfg.renderer().push_events(v.iter().cloned(), &mut dev);
        }
        10 => {
            drop(Parser::new(doc).last());
            let mut it = Parser::new(doc);
            drop(it.nth(p.at));
            it.count();
        }
        _ => {
            for (at, _) in doc.match_indices('{').take(20) {
                let end = doc[at..].rfind('}').map_or(doc.len(), |i| at + i + 1);
                for t in [&doc[at..], &doc[at..end]] {
                    if let Ok(a) = Attributes::try_from(t) {
                        let _ = fmt::Write::write_fmt(&mut dev, format_args!("{a:?}"));
                        a.clone().into_iter().for_each(drop);
                    }
                }
                let v: AttributeValue = doc[at..].into();
                let _ = fmt::Write::write_fmt(&mut dev, format_args!("{v}"));
            }
        }
    }
}

pub fn c19(c: &mut Ctx) -> Res {
    let doc = match c.tape.weighted(&[5, 2, 1, 1, 2]) {
        0 => {
            let cap = if c.tape.chance(1, 20) { 50_000 } else { 6000 };
            repetitive(&mut c.tape, cap)
        }
        1 => small_doc(&mut c.tape),
        2 => gen().doc(&mut c.tape),
        3 => gen().catalog(&mut c.tape),
        _ => {
            // all of them alike
            let kinds: Vec<String> = (0..1 + c.tape.usize(3)).map(|_| c.tape.pick(KINDS).replace('@', "a")).collect();
            kinds.concat().repeat(8000 / kinds.concat().len())
        }
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {}, {cfg:?}", show(doc.as_bytes())));
    if dense(&doc) || doc.len() > 60_000 {
        c.count("skipped.long_or_dense", 1);
        return Ok(());
    }
    let Some((levels, events)) = extent(&doc) else {
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    };
    if levels > MAX_LEVELS {
        c.count("skipped.deep", 1);
        return Ok(());
    }
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    c.count("bytes_of_text", doc.len() as u64);
    let allowed = BASE + levels * PER_LEVEL;
    let mut work_done = 0;
    let mut k = 0;
    while work_done < 60_000 && c.tape.more(k, 1, 6, 3, 4) {
        k += 1;
        let p = Plan {
            how: c.tape.usize(HOW.len()),
            at: c.tape.usize(events + 2),
            room: if c.tape.chance(1, 2) { usize::MAX } else { c.tape.usize(2 * doc.len() + 10) },
            panics: c.tape.chance(1, 3),
        };
        c.note(|| format!("{} at event {}, room {}, panics {}", HOW[p.how], p.at, p.room, p.panics));
        let (r, used) = measured(allowed, || guard(|| work(&doc, &cfg, &p)));
        work_done += doc.len();
        if r.is_err() {
            c.count("fault.sink_panics", 1);
        }
        c.count("fault.small_stack", 1);
        c.nontrivial = true;
        let size = (usize::BITS - doc.len().leading_zeros()) as u64;
        c.state(mix(p.how as u64 * 64 + size, levels as u64));
        if used > allowed {
            return fail("stack-hunger", format!("{}: more than {allowed} bytes of stack for {} bytes of text, {events} events, nested {levels} levels deep", HOW[p.how], doc.len()));
        }
        c.event(mix(p.how as u64, r.is_err() as u64));
    }
    Ok(())
}
