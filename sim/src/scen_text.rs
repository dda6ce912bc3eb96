//! C18: what storage does to one part of a text does not show in the others.

use crate::engine::{fail, Ctx, Res};
use crate::scen_lib::{dense, event_kind, nesting};
use crate::tape::{hash_bytes, mix};
use crate::world::*;
use jotdown::{Attributes, Container, Event, LinkType, Parser, SpanLinkType};
use std::ops::Range;

const HEAD: &str = "* * *\n";

/// An event without what it may look up elsewhere in the text: targets and attributes of references,
/// and automatic identifiers. Sections depend on the headings before; they are left out.
fn local(e: Event) -> Option<Event> {
    let by_label = |c: Container<'_>| -> Option<Container<'static>> {
        match c {
            Container::Link(_, LinkType::Span(SpanLinkType::Reference | SpanLinkType::Unresolved)) => {
                Some(Container::Link("".into(), LinkType::Span(SpanLinkType::Reference)))
            }
            Container::Image(_, SpanLinkType::Reference | SpanLinkType::Unresolved) => Some(Container::Image("".into(), SpanLinkType::Reference)),
            Container::Heading {
                level, has_section, ..
            } => Some(Container::Heading {
                level,
                has_section,
                id: "".into(),
            }),
            _ => None,
        }
    };
    match e {
        Event::Start(Container::Document | Container::Section { .. }, _) | Event::End(Container::Document | Container::Section { .. }) => None,
        Event::Start(c, a) => Some(match by_label(c.clone()) {
            Some(c @ Container::Heading { .. }) => Event::Start(c, a),
            Some(c) => Event::Start(c, Attributes::new()),
            None => Event::Start(c, a),
        }),
        Event::End(c) => Some(Event::End(by_label(c.clone()).unwrap_or(c))),
        e => Some(e),
    }
}

struct Item<'s> {
    event: Event<'s>,
    span: Range<usize>,
    /// Begins a block that is in no other.
    top: bool,
}

/// The events of a text, reduced to what is local.
fn items<'s>(text: &'s str) -> Result<Vec<Item<'s>>, String> {
    guard(|| {
        let mut depth = 0usize;
        let mut v = Vec::new();
        for (e, span) in Parser::new(text).into_offset_iter() {
            let Some(event) = local(e) else { continue };
            let mut top = false;
            match &event {
                Event::Start(..) => {
                    top = depth == 0;
                    depth += 1;
                }
                Event::End(..) => depth = depth.saturating_sub(1),
                Event::ThematicBreak(..) => top = depth == 0,
                _ => {}
            }
            v.push(Item {
                event,
                span,
                top,
            });
        }
        v
    })
}

/// The index of the thematic break that stands by itself at this place.
fn break_at(v: &[Item], at: usize) -> Option<usize> {
    let i = v.partition_point(|i| i.span.start < at);
    v[i..].iter().take_while(|i| i.span.start == at).position(|i| i.top && matches!(i.event, Event::ThematicBreak(..))).map(|k| i + k)
}

fn frame(part: &str) -> String {
    format!("{HEAD}\n{part}\n\n{HEAD}\n")
}

/// The place of the break behind a part that begins at `at`.
fn behind(part: &str, at: usize) -> usize {
    at + 1 + part.len() + 2
}

/// The events of a part alone, up to and including the break behind it; `None` if it does not end there.
fn alone<'s>(framed: &'s str, part: &str) -> Option<Vec<Item<'s>>> {
    let mut v = items(framed).ok()?;
    let end = break_at(&v, behind(part, HEAD.len()))?;
    let from = break_at(&v, 0)?;
    v.truncate(end + 1);
    v.drain(..=from);
    Some(v)
}

struct Part {
    text: String,
    /// Does it end where it ends? Otherwise what comes behind belongs to it.
    closed: bool,
}

impl Part {
    fn new(c: &mut Ctx, text: String) -> Option<Part> {
        if text.len() > 6000 || dense(&text) || nesting(&text) > 300 {
            c.count("skipped.too_much", 1);
            return None;
        }
        let f = frame(&text);
        let closed = match guard(|| Parser::new(&f).count()) {
            Ok(_) => alone(&f, &text).is_some(),
            Err(_) => {
                c.count("skipped.baseline_fails", 1);
                return None;
            }
        };
        c.count(if closed { "parts.closed" } else { "parts.open" }, 1);
        Some(Part {
            text,
            closed,
        })
    }
}

fn join(parts: &[&Part]) -> String {
    let mut s = HEAD.to_string();
    for p in parts {
        s.push('\n');
        s.push_str(&p.text);
        s.push_str("\n\n");
        s.push_str(HEAD);
    }
    s
}

fn describe(i: Option<&Item>, base: usize) -> String {
    i.map_or("nothing".into(), |i| format!("{:?} at {}..{}", i.event, i.span.start as i64 - base as i64, i.span.end as i64 - base as i64))
}

/// Every part that has only closed ones in front of it is as it is alone.
fn check(c: &mut Ctx, parts: &[&Part]) -> Res {
    let text = join(parts);
    let v = match items(&text) {
        Ok(v) => v,
        Err(p) => return fail("panic", format!("parts that can be parsed alone cannot together: {p}: {}", show(text.as_bytes()))),
    };
    c.event(v.len() as u64);
    c.count("texts_parsed", 1);
    let mut at = HEAD.len();
    let Some(first) = break_at(&v, 0) else {
        return fail("break-lost", format!("the first thematic break is gone: {}", show(text.as_bytes())));
    };
    let mut k = first + 1;
    let mut distinct: Vec<&Part> = Vec::new();
    for p in parts {
        if !distinct.iter().any(|d| std::ptr::eq(*d, *p)) {
            distinct.push(p);
        }
    }
    let frames: Vec<String> = distinct.iter().map(|p| frame(&p.text)).collect();
    let wants: Vec<Vec<Item>> = std::iter::zip(&frames, &distinct).map(|(f, p)| alone(f, &p.text).unwrap_or_default()).collect();
    for (n, p) in parts.iter().enumerate() {
        if !p.closed {
            break;
        }
        let want = &wants[distinct.iter().position(|d| std::ptr::eq(*d, *p)).unwrap_or(0)];
        for w in want {
            let g = v.get(k);
            let same = g.is_some_and(|g| {
                g.event == w.event && g.span.start + HEAD.len() == w.span.start + at && g.span.end + HEAD.len() == w.span.end + at
            });
            if !same {
                return fail(
                    "not-local",
                    format!(
                        "part {n} of {} begins at byte {at}; alone it yields {}, here {}; it is {}; the text is {}",
                        parts.len(),
                        describe(Some(w), HEAD.len()),
                        describe(g, at),
                        show(p.text.as_bytes()),
                        show(text.as_bytes())
                    ),
                );
            }
            k += 1;
        }
        c.count("parts_compared", 1);
        at = behind(&p.text, at) + HEAD.len();
    }
    Ok(())
}

/// The tail of the text is lost.
fn cut(c: &mut Ctx, text: &str, at: usize) -> Res {
    let (Ok(whole), Ok(rest)) = (items(text), items(&text[..at])) else {
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    };
    // what is lost may have belonged to the last block, and that to the one before
    let tops: Vec<usize> = rest.iter().enumerate().filter(|(_, i)| i.top).map(|(k, _)| k).collect();
    let n = if tops.len() < 3 { 0 } else { tops[tops.len() - 2] };
    if n > 0 {
        c.count("blocks_in_front_of_the_cut", tops.len() as u64 - 2);
        c.nontrivial = true;
    }
    for (k, w) in rest[..n].iter().enumerate() {
        let g = whole.get(k);
        if !g.is_some_and(|g| g.event == w.event && g.span == w.span) {
            return fail(
                "tail-matters",
                format!(
                    "with the text cut at byte {at} of {}, event {k} is {}, otherwise {}; the text is {}, cut {}",
                    text.len(),
                    describe(Some(w), 0),
                    describe(g, 0),
                    show(text.as_bytes()),
                    show(text[..at].as_bytes())
                ),
            );
        }
    }
    Ok(())
}

pub fn c18(c: &mut Ctx) -> Res {
    let mut parts: Vec<Part> = Vec::new();
    let mut k = 0;
    while c.tape.more(k, 2, 7, 3, 4) {
        k += 1;
        let text = if c.tape.chance(1, 12) { gen().doc(&mut c.tape) } else { small_doc(&mut c.tape) };
        parts.extend(Part::new(c, text));
    }
    if parts.is_empty() {
        return Ok(());
    }
    c.note(|| parts.iter().enumerate().map(|(i, p)| format!("part {i} ({}): {:?}", if p.closed { "closed" } else { "open" }, p.text)).collect::<Vec<_>>().join("\n  "));
    let mut order: Vec<usize> = (0..parts.len()).collect();
    let mut i = 0;
    loop {
        let now: Vec<&Part> = order.iter().map(|k| &parts[*k]).collect();
        if now.iter().filter(|p| p.closed).count() > 1 {
            c.nontrivial = true;
        }
        c.note(|| format!("stored: {order:?}"));
        check(c, &now)?;
        let text = join(&now);
        c.case = mix(c.case, hash_bytes(text.as_bytes()));
        let mut m = 0;
        while c.tape.more(m, 0, if text.len() > 20_000 { 1 } else { 4 }, 2, 3) {
            m += 1;
            let mut at = c.tape.usize(text.len() + 1);
            if c.tape.chance(1, 3) {
                // between writes of whole lines
                at = text[..text.floor_char_boundary(at)].rfind('\n').map_or(0, |i| i + 1);
            }
            let at = text.floor_char_boundary(at);
            c.count("fault.tail_lost", 1);
            cut(c, &text, at)?;
        }
        if !c.tape.more(i, 1, if text.len() > 20_000 { 2 } else { 6 }, 3, 4) {
            break;
        }
        i += 1;
        let n = order.len();
        let what = c.tape.weighted(&[12, 12, 12, 12, 8, 2]);
        c.state(mix(what as u64, items(&text).map_or(0, |v| v.iter().fold(0, |a, i| if i.top { a | 1 << (event_kind(&i.event) % 60) } else { a }))));
        match what {
            0 if n > 1 => {
                order.remove(c.tape.usize(n));
                c.count("fault.part_lost", 1);
            }
            1 => {
                let k = c.tape.usize(n);
                let to = c.tape.usize(n + 1);
                order.insert(to, order[k]);
                c.count("fault.part_repeated", 1);
            }
            2 => {
                let (a, b) = (c.tape.usize(n), c.tape.usize(n));
                order.swap(a, b);
                c.count("fault.parts_exchanged", 1);
            }
            3 => {
                // torn, flipped, or another version: whatever it is now, it is a part of its own
                let k = c.tape.usize(n);
                let mut t = parts[order[k]].text.clone();
                if c.tape.chance(1, 2) {
                    let at = c.tape.usize(t.len() + 1);
                    t.truncate(t.floor_char_boundary(at));
                    c.count("fault.part_torn", 1);
                } else {
                    gen().damage(&mut c.tape, &mut t);
                    c.count("fault.part_damaged", 1);
                }
                if let Some(p) = Part::new(c, t) {
                    c.note(|| format!("part {} ({}): {:?}", parts.len(), if p.closed { "closed" } else { "open" }, p.text));
                    order[k] = parts.len();
                    parts.push(p);
                }
            }
            5 => {
                // written again and again
                let (mut k, to) = (c.tape.usize(n), c.tape.usize(n + 1));
                if c.tape.chance(1, 2) {
                    k = (0..n).min_by_key(|i| parts[order[*i]].text.len()).unwrap_or(0);
                }
                let room = 100_000usize.saturating_sub(text.len()) / (parts[order[k]].text.len() + 10);
                let times = c.tape.usize(room.min(2500) + 1);
                let what = order[k];
                order.splice(to..to, std::iter::repeat_n(what, times));
                c.count("fault.part_repeated", times as u64);
            }
            _ => {
                let t = small_doc(&mut c.tape);
                if let Some(p) = Part::new(c, t) {
                    c.note(|| format!("part {} ({}): {:?}", parts.len(), if p.closed { "closed" } else { "open" }, p.text));
                    let at = c.tape.usize(n + 1);
                    order.insert(at, parts.len());
                    parts.push(p);
                }
                c.count("parts_added", 1);
            }
        }
    }
    Ok(())
}
