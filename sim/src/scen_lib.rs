//! C06 (parser histories), C08 (environments), C12 (damaged storage), C13 (pipelines),
//! C14 (memory).

use crate::docgen::Size;
use crate::alloc::{inside, outside, Layouting};
use crate::engine::{fail, Ctx, Res};
use crate::sched;
use crate::sys::{self, Env};
use crate::tape::{hash_bytes, mix, Tape};
use crate::world::*;
use jotdown::{AttributeKind, AttributeValue, Attributes, Container, Event, OffsetIter, Parser, Render};
use std::borrow::Cow;
use std::collections::VecDeque;
use std::ops::Range;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

type Spanned<'s> = (Event<'s>, Range<usize>);

// ---- C06 ------------------------------------------------------------------------------------

enum Any<'s> {
    P(Parser<'s>),
    O(OffsetIter<'s>),
    Boxed(Box<Parser<'s>>),
}

struct Cursor<'s> {
    p: Any<'s>,
    at: usize,
    id: usize,
}

pub fn c06(c: &mut Ctx) -> Res {
    {
        use crate::sessions::probe;
        #[allow(unused_imports)]
        use probe::No;
        if !probe::Is::<Parser<'static>>::SEND || !probe::Is::<OffsetIter<'static>>::SEND {
            return fail("not-send", "a parser can no longer be moved to another thread");
        }
    }
    let doc = if c.tape.chance(1, 4) {
        gen().doc(&mut c.tape)
    } else {
        small_doc(&mut c.tape)
    };
    if c.tape.chance(1, 6) {
        return clone_everywhere(c, &doc);
    }
    parser_history(c, &doc)
}

/// A clone is made before every single event; they are run to their ends at once, or when the
/// original is done, the first or the last clone first.
fn clone_everywhere(c: &mut Ctx, doc: &str) -> Res {
    c.note(|| format!("document {doc:?}"));
    let Ok(want) = guard(|| Parser::new(doc).into_offset_iter().collect::<Vec<Spanned>>()) else {
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    };
    let n = want.len();
    if n > 300 {
        c.count("skipped.long", 1);
        return Ok(());
    }
    let mode = c.tape.draw(3);
    let offsets = c.tape.draw(3);
    let chain = c.tape.chance(1, 2);
    c.case = mix(mix(hash_bytes(doc.as_bytes()), 66), u64::from(mode * 6 + offsets * 2) + u64::from(chain));
    c.note(|| format!("clone before every event{}; run {}", if chain { ", the clone goes on" } else { "" }, ["at once", "later", "later, last first"][mode as usize]));
    let run = |p: Parser, at: usize| -> Res {
        let r: Result<Vec<(Event, Option<Range<usize>>)>, String> = guard(|| {
            if offsets == 0 || offsets == 2 && at % 2 == 0 {
                p.into_offset_iter().map(|(e, s)| (e, Some(s))).collect()
            } else {
                p.map(|e| (e, None)).collect()
            }
        });
        let r = match r {
            Ok(r) => r,
            Err(p) => return fail("panic", p),
        };
        for i in 0..r.len().max(n - at) {
            compare(&format!("cloned at {at}"), at + i, r.get(i).cloned(), want.get(at + i))?;
        }
        Ok(())
    };
    let mut main = match guard(|| Parser::new(doc)) {
        Ok(p) => p,
        Err(p) => return fail("panic", p),
    };
    let mut kept = Vec::new();
    for at in 0..=n {
        let mut copy = match guard(|| main.clone()) {
            Ok(p) => p,
            Err(p) => return fail("panic", p),
        };
        if chain {
            std::mem::swap(&mut main, &mut copy);
        }
        if mode == 0 {
            run(copy, at)?;
        } else {
            kept.push((copy, at));
        }
        match guard(|| main.next()) {
            Ok(e) => compare("the original", at, e.map(|e| (e, None)), want.get(at))?,
            Err(p) => return fail("panic", p),
        }
        if at > 0 && at < n {
            c.state(mix(event_kind(&want[at - 1].0), event_kind(&want[at].0)));
        }
    }
    if mode == 2 {
        kept.reverse();
    }
    c.count("op.clone", n as u64 + 1);
    c.count("steps", (n * n / 2) as u64);
    for (p, at) in kept {
        run(p, at)?;
    }
    c.nontrivial = n > 2;
    c.event(c.case);
    Ok(())
}

pub fn parser_history(c: &mut Ctx, doc: &str) -> Res {
    c.note(|| format!("document {doc:?}"));
    let Ok(want) = guard(|| Parser::new(doc).into_offset_iter().collect::<Vec<Spanned>>()) else {
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    };
    c.case = mix(hash_bytes(doc.as_bytes()), 6);
    let n = want.len();
    let mut cursors = vec![Cursor {
        p: Any::P(match guard(|| Parser::new(doc)) {
            Ok(p) => p,
            Err(p) => return fail("panic", p),
        }),
        at: 0,
        id: 0,
    }];
    let mut ids = 1;
    let mut ops = 0;
    let mut sig = 0u64;
    let scale = [2, 4, 12][c.tape.usize(3)];
    while !cursors.is_empty() && ops < 40 + n.min(400) {
        ops += 1;
        if !c.tape.more(ops, 1, 500, 40, 41) {
            break;
        }
        let k = c.tape.usize(cursors.len());
        let op = c.tape.weighted(&[30, 8, 3, 2, 3, 2, 1, 2, 1, 2, 1, 2]);
        sig = mix(sig, (op * 10 + k) as u64);
        c.count("steps", 1);
        let count = cursors.len();
        let cur = &mut cursors[k];
        let (id, at) = (cur.id, cur.at);
        match op {
            0 => {
                let m = 1 + c.tape.usize(scale);
                c.note(|| format!("#{id} at {at}: take {m}"));
                for _ in 0..m {
                    take(cur, &want)?;
                }
            }
            1 => {
                if count < 6 {
                    c.count("op.clone", 1);
                    c.note(|| format!("#{id} at {at}: clone as #{ids}"));
                    let copy = match &cur.p {
                        Any::P(p) => guard(|| p.clone()).map(Any::P),
                        Any::Boxed(p) => guard(|| p.clone()).map(Any::Boxed),
                        Any::O(_) => continue,
                    };
                    let p = match copy {
                        Ok(p) => p,
                        Err(p) => return fail("panic", p),
                    };
                    cursors.push(Cursor { p, at, id: ids });
                    ids += 1;
                    if at > 0 && at < n {
                        c.nontrivial = true;
                        c.state(mix(event_kind(&want[at - 1].0), event_kind(&want[at].0)));
                    }
                }
            }
            2 => {
                if count > 1 {
                    c.count("op.drop", 1);
                    c.note(|| format!("#{id} at {at}: drop"));
                    let d = cursors.remove(k);
                    inside(|| drop(d));
                }
            }
            3 => {
                c.count("op.into_offset_iter", 1);
                c.note(|| format!("#{id} at {at}: into_offset_iter"));
                let d = cursors.remove(k);
                let p = match d.p {
                    Any::P(p) => Any::O(inside(|| p.into_offset_iter())),
                    Any::Boxed(p) => Any::O(inside(|| p.into_offset_iter())),
                    o => o,
                };
                if at > 0 && at < n {
                    c.nontrivial = true;
                }
                cursors.insert(k, Cursor { p, ..d });
            }
            4 => {
                c.count("op.move", 1);
                c.note(|| format!("#{id} at {at}: move to the heap and back"));
                let d = cursors.remove(k);
                let p = match d.p {
                    Any::P(p) => Any::Boxed(inside(|| Box::new(p))),
                    Any::Boxed(p) => Any::P(*p),
                    o => o,
                };
                cursors.insert(k, Cursor { p, ..d });
            }
            5 => {
                let m = c.tape.usize(8);
                c.count("op.nth", 1);
                c.note(|| format!("#{id} at {at}: nth({m})"));
                let r = guard(|| match &mut cur.p {
                    Any::P(p) => p.nth(m).map(|e| (e, None)),
                    Any::Boxed(p) => p.nth(m).map(|e| (e, None)),
                    Any::O(p) => p.nth(m).map(|(e, s)| (e, Some(s))),
                });
                let r = match r {
                    Ok(r) => r,
                    Err(p) => return fail("panic", p),
                };
                let w = want.get(at + m);
                cur.at = (at + m + 1).min(n);
                compare("nth", at + m, r, w)?;
            }
            6 => {
                c.count("op.finish", 1);
                c.note(|| format!("#{id} at {at}: collect the rest"));
                let d = cursors.remove(k);
                let r: Result<Vec<(Event, Option<Range<usize>>)>, String> = guard(|| match d.p {
                    Any::P(p) => p.fold(Vec::new(), |mut v, e| {
                        v.push((e, None));
                        v
                    }),
                    Any::Boxed(p) => p.map(|e| (e, None)).collect(),
                    Any::O(p) => p.map(|(e, s)| (e, Some(s))).collect(),
                });
                let r = match r {
                    Ok(r) => r,
                    Err(p) => return fail("panic", p),
                };
                for i in 0..r.len().max(n - d.at) {
                    compare("rest", d.at + i, r.get(i).cloned(), want.get(d.at + i))?;
                }
                if cursors.is_empty() {
                    break;
                }
            }
            7 => {
                // processed by another thread for a while, then handed back
                c.count("op.other_thread", 1);
                let m = 1 + c.tape.usize(6);
                c.note(|| format!("#{id} at {at}: take {m} on another thread"));
                struct S<T>(T);
                unsafe impl<T> Send for S<T> {}
                impl<T> S<T> {
                    fn get(self) -> T {
                        self.0
                    }
                }
                let arg = S((&mut *cur, &want));
                let r = std::thread::scope(|sc| {
                    let h = sc.spawn(move || {
                        let (cur, want) = arg.get();
                        for _ in 0..m {
                            take(cur, want)?;
                        }
                        Ok(())
                    });
                    h.join()
                });
                match r {
                    Ok(r) => r?,
                    Err(_) => return fail("panic", "on the other thread"),
                }
            }
            9 => {
                // ways to consume that an iterator may implement by itself
                let how = c.tape.draw(4);
                let copy = match &cur.p {
                    Any::P(p) => guard(|| p.clone()),
                    Any::Boxed(p) => guard(|| (**p).clone()),
                    Any::O(_) => continue,
                };
                c.count("op.consume", 1);
                c.note(|| format!("#{id} at {at}: {} on a clone", ["count", "last", "find", "position"][how as usize]));
                let kind = want.get(at + (n - at) / 2).map(|(e, _)| std::mem::discriminant(e));
                let r = guard(|| {
                    let mut p = copy?;
                    Ok(match how {
                        0 => (p.count() == n - at, n),
                        1 => (p.last() == want.get(at..).and_then(|w| w.last()).map(|(e, _)| e.clone()), n),
                        2 => {
                            let got = p.find(|e| Some(std::mem::discriminant(e)) == kind);
                            let w = (at..n).find(|i| Some(std::mem::discriminant(&want[*i].0)) == kind);
                            let next = p.next();
                            let ok = got.as_ref() == w.map(|i| &want[i].0);
                            (ok && next.as_ref() == w.and_then(|i| want.get(i + 1)).map(|(e, _)| e), w.unwrap_or(n))
                        }
                        _ => {
                            let got = p.position(|e| Some(std::mem::discriminant(&e)) == kind);
                            let w = (at..n).position(|i| Some(std::mem::discriminant(&want[i].0)) == kind);
                            (got == w, n)
                        }
                    })
                });
                match r {
                    Ok(Ok((true, _))) => {}
                    Ok(Ok((false, _))) => return fail("wrong-event", format!("#{id} at {at}: consumed in another way ({how})")),
                    Ok(Err(p)) | Err(p) => return fail("panic", p),
                }
            }
            10 => {
                // overwritten with the state of another
                let j = c.tape.usize(count);
                if j != k {
                    let (from_at, src) = {
                        let s = &cursors[j];
                        let p = match &s.p {
                            Any::P(p) => p as *const Parser,
                            Any::Boxed(p) => &raw const **p,
                            Any::O(_) => continue,
                        };
                        (s.at, p)
                    };
                    c.count("op.clone_from", 1);
                    c.note(|| format!("#{id} at {at}: clone_from #{} at {from_at}", cursors[j].id));
                    let cur = &mut cursors[k];
                    let r = match &mut cur.p {
                        // a different element of the same list
                        Any::P(p) => guard(|| p.clone_from(unsafe { &*src })),
                        Any::Boxed(p) => guard(|| (**p).clone_from(unsafe { &*src })),
                        Any::O(_) => continue,
                    };
                    if let Err(p) = r {
                        return fail("panic", p);
                    }
                    cur.at = from_at;
                }
            }
            11 => {
                // through an adapter that goes away again
                let m = c.tape.usize(5);
                let how = c.tape.draw(3);
                c.count("op.by_ref", 1);
                c.note(|| format!("#{id} at {at}: by_ref, {} {m}", ["take", "skip", "step_by 1 take"][how as usize]));
                let r: Result<Vec<(Event, Option<Range<usize>>)>, String> = guard(|| match (&mut cur.p, how) {
                    (Any::P(p), 0) => p.by_ref().take(m).map(|e| (e, None)).collect(),
                    (Any::P(p), 1) => p.by_ref().skip(m).take(1).map(|e| (e, None)).collect(),
                    (Any::P(p), _) => p.by_ref().step_by(1).take(m).map(|e| (e, None)).collect(),
                    (Any::Boxed(p), 0) => p.by_ref().take(m).map(|e| (e, None)).collect(),
                    (Any::Boxed(p), 1) => p.by_ref().skip(m).take(1).map(|e| (e, None)).collect(),
                    (Any::Boxed(p), _) => p.by_ref().step_by(1).take(m).map(|e| (e, None)).collect(),
                    (Any::O(p), 0) => p.by_ref().take(m).map(|(e, s)| (e, Some(s))).collect(),
                    (Any::O(p), 1) => p.by_ref().skip(m).take(1).map(|(e, s)| (e, Some(s))).collect(),
                    (Any::O(p), _) => p.by_ref().step_by(1).take(m).map(|(e, s)| (e, Some(s))).collect(),
                });
                let r = match r {
                    Ok(r) => r,
                    Err(p) => return fail("panic", p),
                };
                let (from, len) = if how == 1 { (at + m, 1) } else { (at, m) };
                let left = n.saturating_sub(from).min(len);
                for i in 0..r.len().max(left) {
                    compare("by_ref", from + i, r.get(i).cloned(), want.get(from..).and_then(|w| w.get(i)).filter(|_| i < len))?;
                }
                cur.at = (from + len).min(n);
            }
            _ => {
                // the size hint must not contradict what follows
                let (lo, hi) = match &cur.p {
                    Any::P(p) => p.size_hint(),
                    Any::Boxed(p) => p.size_hint(),
                    Any::O(p) => p.size_hint(),
                };
                if lo > n - at || hi.is_some_and(|h| h < n - at) {
                    return fail("wrong-size-hint", format!("at {at} of {n}: ({lo}, {hi:?})"));
                }
            }
        }
    }
    // whatever is left must still run to its end, and stay there
    for mut cur in cursors {
        let limit = 2 * n + 10;
        let mut i = 0;
        while cur.at < n && i < limit {
            take(&mut cur, &want)?;
            i += 1;
        }
        for _ in 0..3 {
            take(&mut cur, &want)?;
        }
        inside(|| drop(cur));
    }
    c.case = mix(c.case, sig);
    c.event(sig);
    c.event(ops as u64);
    Ok(())
}

fn take<'s>(cur: &mut Cursor<'s>, want: &[Spanned<'s>]) -> Res {
    let r = guard(|| match &mut cur.p {
        Any::P(p) => p.next().map(|e| (e, None)),
        Any::Boxed(p) => p.next().map(|e| (e, None)),
        Any::O(p) => p.next().map(|(e, s)| (e, Some(s))),
    });
    let r = match r {
        Ok(r) => r,
        Err(p) => return fail("panic", format!("#{} at {}: {p}", cur.id, cur.at)),
    };
    let at = cur.at;
    cur.at = (at + 1).min(want.len());
    compare(&format!("#{}", cur.id), at, r, want.get(at))
}

fn compare(who: &str, at: usize, got: Option<(Event, Option<Range<usize>>)>, want: Option<&Spanned>) -> Res {
    match (&got, want) {
        (None, None) => Ok(()),
        (Some((e, s)), Some((we, ws))) => {
            if e != we {
                return fail("wrong-event", format!("{who}: event {at} is {e:?}, an undisturbed parser gives {we:?}"));
            }
            if let Some(s) = s {
                if s != ws {
                    return fail("wrong-span", format!("{who}: event {at} {e:?} has span {s:?}, undisturbed {ws:?}"));
                }
            }
            Ok(())
        }
        (Some((e, _)), None) => fail("event-after-end", format!("{who}: {e:?} although the document is over")),
        (None, Some((we, _))) => fail("ended-early", format!("{who}: no event {at}, an undisturbed parser gives {we:?}")),
    }
}

pub fn event_kind(e: &Event) -> u64 {
    let d = format!("{e:?}");
    let d: String = d.chars().take_while(|c| c.is_alphabetic() || *c == '(' || *c == ' ').collect();
    hash_bytes(d.as_bytes())
}

// ---- C08 ------------------------------------------------------------------------------------

/// Everything observable about a document.
pub fn fingerprint(doc: &str, cfg: &Cfg) -> Result<(Vec<String>, String), String> {
    guard(|| {
        let ev: Vec<Spanned> = Parser::new(doc).into_offset_iter().collect();
        let mut s = String::new();
        let r = cfg.renderer().push_events(Parser::new(doc), &mut s);
        outside(|| {
            (
                ev.iter().map(|(e, s)| format!("{e:?} {s:?}")).collect(),
                if r.is_ok() { s.clone() } else { format!("{s} (error)") },
            )
        })
    })
}

/// Runs in a destructor, while a panic is on its way.
fn during_panic<R>(f: impl FnOnce() -> R) -> R {
    struct Late<'a, R, F: FnOnce() -> R>(Option<F>, &'a mut Option<R>);
    impl<R, F: FnOnce() -> R> Drop for Late<'_, R, F> {
        fn drop(&mut self) {
            *self.1 = self.0.take().map(|f| f());
        }
    }
    let mut r = None;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _late = Late(Some(f), &mut r);
        std::panic::panic_any("a panic of the caller's".to_string());
    }));
    r.expect("destructor ran")
}

fn on_thread<R: Send>(stack: usize, f: impl FnOnce() -> R + Send) -> R {
    on_named_thread(stack, "", f)
}

fn on_named_thread<R: Send>(stack: usize, name: &str, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        let b = std::thread::Builder::new();
        let b = if name.is_empty() { b } else { b.name(name.to_string()) };
        b.stack_size(stack)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .expect("harness thread")
    })
}

pub fn c08(c: &mut Ctx) -> Res {
    let doc = match c.tape.weighted(&[4, 4, 1]) {
        0 => small_doc(&mut c.tape),
        1 => gen().doc(&mut c.tape),
        _ => gen().catalog(&mut c.tape),
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {:?}", doc));
    c.note(|| format!("options {cfg:?}"));
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    sys::set_env(&Env::default());
    let Ok(want) = on_thread(8 << 20, || fingerprint(&doc, &cfg)) else {
        c.count("skipped.baseline_fails", 1);
        return Ok(());
    };
    let mut i = 0;
    while c.tape.more(i, 1, 4, 3, 4) {
        i += 1;
        let what = c.tape.draw(127) + 1;
        let mut env = Env::default();
        let mut lay = Layouting::default();
        let mut stack = 8 << 20;
        let mut shift = 0;
        let mut warm: Vec<String> = Vec::new();
        if what & 1 != 0 {
            env.random = u64::from(c.tape.draw(u32::MAX)) + 1;
            c.count("env.hash_seed", 1);
        }
        if what & 2 != 0 {
            env.clock_ns = u64::from(c.tape.draw(u32::MAX)) << 24;
            env.clock_step = u64::from(c.tape.draw(1 << 20)) << 12;
            let year = i64::from(c.tape.draw(600));
            env.wall = Some(((year - 70) * 31_556_952 + i64::from(c.tape.draw(31_556_952)), c.tape.chance(1, 4)));
            c.count("env.clock", 1);
        }
        if what & 4 != 0 {
            env.getenv = Some(c.tape.draw(255) as u8);
            c.count("env.getenv", 1);
        }
        if what & 8 != 0 {
            lay = Layouting {
                skew: c.tape.usize(9) * 16,
                fill: [0, 0xAA, 0xFF, 0x20][c.tape.usize(4)],
                no_reuse: c.tape.chance(1, 2),
            };
            c.count("env.heap", 1);
        }
        if what & 16 != 0 {
            stack = [2 << 20, 4 << 20, 32 << 20][c.tape.usize(3)];
            c.count("env.stack", 1);
        }
        if what & 32 != 0 {
            shift = 1 + c.tape.usize(31);
            c.count("env.alignment", 1);
        }
        if what & 64 != 0 {
            warm.push(small_doc(&mut c.tape));
            c.count("env.earlier_document", 1);
        }
        let main = c.tape.chance(1, 4);
        let name = match c.tape.draw(7) {
            n @ 0..=5 => ["", "main", "worker", "worker-1", "tokio-runtime-worker", "jotdown"][n as usize],
            _ => crate::dict::word(&mut c.tape),
        };
        let name: String = name.chars().filter(|c| *c != '\0').collect();
        let unwinding = c.tape.chance(1, 8);
        c.note(|| format!("environment {env:?} {lay:?} stack {stack} shift {shift} main {main} thread {name:?} unwinding {unwinding} warm-up {warm:?}"));
        c.count("env.thread", u64::from(!main));
        c.count("env.unwinding", u64::from(unwinding));
        c.case = mix(c.case, u64::from(what));
        c.state(mix(u64::from(what) * 2 + u64::from(main), event_mix(&want.0)));
        c.nontrivial = true;
        let mut buf = vec![b'#'; shift];
        buf.extend_from_slice(doc.as_bytes());
        buf.extend_from_slice(b"\n# tail");
        let text = std::str::from_utf8(&buf[shift..shift + doc.len()]).unwrap();
        sys::set_env(&env);
        crate::alloc::set_layout(lay);
        let go = || {
            for w in &warm {
                let _ = fingerprint(w, &cfg);
            }
            fingerprint(text, &cfg)
        };
        let go = || if unwinding { during_panic(go) } else { go() };
        let got = if main { go() } else { on_named_thread(stack, &name, go) };
        sys::set_env(&Env::default());
        crate::alloc::set_layout(Layouting::default());
        let got = match got {
            Ok(g) => g,
            Err(p) => return fail("panic-in-some-environment", p),
        };
        check_same(&got, &want)?;
    }
    c.count("random_reads", sys::RANDOM_CALLS.swap(0, SeqCst));
    c.event(hash_bytes(want.1.as_bytes()));
    if let Some(p) = crate::twin::get() {
        let got = p.ask(&doc, &cfg);
        c.count("env.tree_maps", 1);
        match got {
            Some(Ok(g)) => check_same(&g, &want).map_err(|mut v| {
                v.class = format!("deterministic-feature-{}", v.class);
                v
            })?,
            Some(Err(e)) => return fail("deterministic-feature-panics", e),
            None => return fail("deterministic-feature-crash", "the build with the deterministic feature crashed"),
        }
    }
    Ok(())
}

fn event_mix(ev: &[String]) -> u64 {
    // which kinds of events occur, coarsely
    let mut m = 0u64;
    for e in ev {
        let k: String = e.chars().take_while(|c| c.is_alphabetic() || *c == '(').collect();
        m |= 1 << (hash_bytes(k.as_bytes()) % 64);
    }
    m
}

fn check_same(got: &(Vec<String>, String), want: &(Vec<String>, String)) -> Res {
    for i in 0..got.0.len().max(want.0.len()) {
        if got.0.get(i) != want.0.get(i) {
            return fail("events-differ", format!("event {i}: {:?} instead of {:?}", got.0.get(i), want.0.get(i)));
        }
    }
    same("output-differs", "rendered output", got.1.as_bytes(), want.1.as_bytes())
}

// ---- C12 ------------------------------------------------------------------------------------

pub fn c12(c: &mut Ctx) -> Res {
    // two versions of the file, on a device with small sectors
    let new = match c.tape.weighted(&[4, 5, 2]) {
        0 => gen().doc_sized(&mut c.tape, Size::Tiny),
        1 => small_doc(&mut c.tape),
        _ => gen().doc(&mut c.tape),
    }
    .into_bytes();
    let old = if c.tape.chance(1, 2) {
        small_doc(&mut c.tape).into_bytes()
    } else {
        Vec::new()
    };
    let sector = [1, 4, 16, 64, 512, 4096][c.tape.usize(6)];
    let mut data = new.clone();
    let mut i = 0;
    let n = data.len();
    c.note(|| format!("stored: {}", show(&new)));
    while c.tape.more(i, 1, 6, 1, 2) {
        i += 1;
        let secs = data.len().div_ceil(sector).max(1);
        match c.tape.weighted(&[3, 4, 2, 2, 2, 2, 2, 1]) {
            7 => {
                // address lines are stuck: one sector shows up everywhere in a region
                let s = c.tape.usize(secs) * sector;
                let part = data[s.min(data.len())..(s + sector).min(data.len())].to_vec();
                let e = data.len() - c.tape.usize(data.len() + 1);
                let b = if c.tape.chance(1, 2) { 0 } else { c.tape.usize(e + 1) };
                if !part.is_empty() {
                    for j in b..e {
                        data[j] = part[(j - b) % part.len()];
                    }
                    if c.tape.chance(1, 16) {
                        // and the file appears longer than it was
                        let more = [255, 256, 4096, 65_536, 100_000][c.tape.usize(5)];
                        data.splice(b..b, part.iter().copied().cycle().take(more));
                    }
                }
                c.count("fault.mirrored_sector", 1);
            }
            0 => {
                let at = c.tape.usize(data.len() + 1);
                data.truncate(at);
                c.count("fault.truncated", 1);
            }
            1 => {
                let mut k = 0;
                while c.tape.more(k, 1, 8, 1, 2) {
                    k += 1;
                    if data.is_empty() {
                        break;
                    }
                    let at = c.tape.usize(data.len());
                    // flips that keep a character valid are the interesting ones
                    let bit = c.tape.weighted(&[3, 3, 3, 3, 3, 2, 2, 1]);
                    data[at] ^= 1 << bit;
                    c.count("fault.bit_flip", 1);
                }
            }
            2 => {
                let s = c.tape.usize(secs) * sector;
                let e = (s + sector).min(data.len());
                if s < e {
                    data[s..e].fill(0);
                }
                c.count("fault.zeroed_sector", 1);
            }
            3 => {
                // lost write: the old contents are still there
                let s = c.tape.usize(secs) * sector;
                for j in s..(s + sector).min(data.len()) {
                    data[j] = old.get(j).copied().unwrap_or(b'\n');
                }
                c.count("fault.stale_sector", 1);
            }
            4 => {
                let s = c.tape.usize(secs) * sector;
                let e = (s + sector).min(data.len());
                let part = data[s.min(e)..e].to_vec();
                let (most, bytes) = if c.tape.chance(1, 40) { (70_000, 200_000) } else { (1025, 8_000) };
                let times = crate::docgen::count(&mut c.tape, most).min(1 + bytes / part.len().max(1));
                for _ in 0..times {
                    data.splice(e..e, part.iter().copied());
                }
                c.count("fault.repeated_sector", 1);
            }
            5 => {
                let a = c.tape.usize(secs) * sector;
                let b = c.tape.usize(secs) * sector;
                for j in 0..sector {
                    if a + j < data.len() && b + j < data.len() {
                        data.swap(a + j, b + j);
                    }
                }
                c.count("fault.swapped_sectors", 1);
            }
            _ => {
                // torn: only a beginning of the new version replaced the old one
                let at = c.tape.usize(data.len() + 1);
                data.truncate(at);
                if old.len() > at {
                    data.extend_from_slice(&old[at..]);
                }
                c.count("fault.torn_write", 1);
            }
        }
    }
    data.truncate(300_000);
    if c.tape.chance(1, 2) || n == 0 {
        c.nontrivial = data != new;
    } else {
        c.nontrivial = true;
    }
    c.case = mix(hash_bytes(&data), sector as u64);
    let text = match String::from_utf8(data) {
        Ok(t) => t,
        Err(e) => {
            c.count("rejected_as_invalid_utf8", 1);
            let b = e.into_bytes();
            if c.tape.chance(1, 3) {
                c.count("cut_at_the_first_invalid_byte", 1);
                let k = std::str::from_utf8(&b).unwrap_err().valid_up_to();
                String::from_utf8(b[..k].to_vec()).unwrap()
            } else {
                String::from_utf8_lossy(&b).into_owned()
            }
        }
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("read back: {}", show(text.as_bytes())));
    if dense(&text) {
        c.count("skipped.too_dense", 1);
        return Ok(());
    }
    if nesting(&text) > 600 {
        c.count("skipped.too_deep", 1);
        return Ok(());
    }
    let r = on_thread(2 << 20, || damaged(&text, &cfg));
    let (log, kinds) = r?;
    c.event(log);
    c.count("events", kinds.1);
    c.state(kinds.0);
    c.count("bytes_parsed", text.len() as u64);
    Ok(())
}

/// An upper bound of the block nesting depth: every level needs a marker somewhere, which ends with
/// one of these characters in front of white space, or is a fence.
fn nesting_bound(text: &str) -> usize {
    let b = text.as_bytes();
    (0..b.len())
        .filter(|&i| {
            b">-*+:.)]".contains(&b[i]) && b.get(i + 1).is_none_or(u8::is_ascii_whitespace)
                || b[i..].starts_with(b":::") && (i == 0 || b[i - 1] != b':')
                || b[i..].starts_with(b"]:")
        })
        .count()
}

/// The deepest nesting that the parser itself finds, given all the stack it may want.
pub fn nesting(text: &str) -> usize {
    let b = nesting_bound(text);
    if !(200..=6000).contains(&b) {
        return b;
    }
    on_thread(512 << 20, || {
        guard(|| {
            let (mut depth, mut max) = (0usize, 0);
            for e in Parser::new(text) {
                match e {
                    Event::Start(..) => depth += 1,
                    Event::End(..) => depth = depth.saturating_sub(1),
                    _ => {}
                }
                max = max.max(depth);
            }
            max
        })
        // (a panic will come again)
        .unwrap_or(0)
    })
}

/// The search for an inline element's opener takes time quadratic in the number of openers in the
/// paragraph; more than this takes minutes.
pub fn dense(text: &str) -> bool {
    let mut n = 0;
    for l in text.lines() {
        if l.trim().is_empty() {
            n = 0;
        } else {
            n += l.bytes().filter(|b| b"{}[]()<>_*^~`'\"=+-!:.\\".contains(b)).count();
        }
        if n > 30_000 {
            return true;
        }
    }
    false
}

fn kind_number(k: &Container) -> u32 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut h = DefaultHasher::new();
    std::mem::discriminant(k).hash(&mut h);
    (h.finish() % 64) as u32
}

fn damaged(text: &str, cfg: &Cfg) -> Result<(u64, (u64, u64)), crate::engine::Violation> {
    let limit = 16 * (text.len() as u64 + 16);
    let mut n = 0u64;
    let mut log = 0;
    let mut kinds = 0u64;
    let mut open: Vec<Container> = Vec::new();
    let mut it = match guard(|| Parser::new(text).into_offset_iter()) {
        Ok(p) => p,
        Err(p) => return fail(&format!("{}-parsing", crate::engine::panic_class(&p)), p),
    };
    loop {
        let e = match guard(|| it.next()) {
            Ok(Some(e)) => e,
            Ok(None) => break,
            Err(p) => return fail(&format!("{}-parsing", crate::engine::panic_class(&p)), p),
        };
        n += 1;
        if n > limit {
            return fail("endless-events", format!("more than {limit} events from {} bytes", text.len()));
        }
        let (e, s) = e;
        if s.start > s.end || s.end > text.len() || !text.is_char_boundary(s.start) || !text.is_char_boundary(s.end) {
            return fail("bad-span", format!("{e:?} {s:?}"));
        }
        log = mix(log, s.start as u64 ^ (s.end as u64) << 32);
        match e {
            Event::Start(k, _) => {
                if open.is_empty() && n > 1 {
                    return fail("unbalanced", format!("start of {k:?} outside the document"));
                }
                kinds |= 1 << kind_number(&k);
                open.push(k);
            }
            Event::End(k) => {
                let o = open.pop();
                let same = o.as_ref() == Some(&k);
                if !same {
                    return fail("unbalanced", format!("end of {k:?}, open is {o:?}"));
                }
            }
            e => {
                if open.is_empty() {
                    return fail("unbalanced", format!("{e:?} outside the document"));
                }
            }
        }
    }
    if !open.is_empty() {
        return fail("unbalanced", format!("never closed: {open:?}"));
    }
    log = mix(log, damaged_attributes(text)?);
    let r = guard(|| {
        let mut s = String::new();
        cfg.renderer().push_events(Parser::new(text), &mut s).map(|()| s)
    });
    match r {
        Ok(Ok(s)) => Ok((mix(log, hash_bytes(s.as_bytes())), (kinds, n))),
        Ok(Err(_)) => fail("render-error", "rendering to a string failed"),
        Err(p) => fail(&format!("{}-rendering", crate::engine::panic_class(&p)), p),
    }
}

/// What an application that stores attributes by themselves does with them.
fn damaged_attributes(text: &str) -> Result<u64, crate::engine::Violation> {
    let mut log = 0;
    let b = text.as_bytes();
    let starts = (0..b.len()).filter(|&i| b[i] == b'{').take(40);
    for i in std::iter::once(0).chain(starts) {
        // (as much as a record would hold)
        let mut end = text.len().min(i + 200);
        while !text.is_char_boundary(end) {
            end -= 1;
        }
        let part = &text[i..end];
        // all of it, and what is left when its end is torn off somewhere
        let cut = part.find('}').map_or(part.len(), |j| j + 1);
        let torn = &part[..(cut / 2..=cut).find(|j| part.is_char_boundary(*j)).unwrap()];
        for t in [part, &part[..cut], torn] {
            let r = guard(|| {
                let a = match Attributes::try_from(t) {
                    Ok(a) => a,
                    Err(e) => return Err(e.pos),
                };
                let mut shown = format!("{a:?}");
                let mut n = 0;
                for (k, v) in &a {
                    shown.push_str(&v.to_string());
                    n += v.parts().count() + k.key().map_or(0, str::len);
                }
                for (k, v) in a.unique_pairs() {
                    shown.push_str(k);
                    shown.extend(v.parts());
                    n += a.get_value(k).map_or(0, |v| v.parts().count());
                    n += usize::from(a.contains_key(k));
                }
                Ok((a.len(), n, shown))
            });
            match r {
                Ok(Ok((len, n, shown))) => {
                    // every element needs a character of its own, and none is shown more than thrice
                    if len > t.len() || n > 9 * t.len() + 9 || shown.len() > 9 * t.len() + 9 {
                        return fail("attributes-from-nothing", format!("{len} elements, {n} parts, {} characters from {t:?}", shown.len()));
                    }
                    log = mix(log, hash_bytes(shown.as_bytes()));
                }
                Ok(Err(pos)) => {
                    if pos > t.len() {
                        return fail("bad-position", format!("attributes {t:?} are rejected at {pos}"));
                    }
                    log = mix(log, pos as u64);
                }
                Err(p) => return fail(&format!("{}-attributes", crate::engine::panic_class(&p)), format!("{t:?}: {p}")),
            }
        }
    }
    Ok(log)
}

// ---- C13 ------------------------------------------------------------------------------------

fn own_str(s: &str) -> Cow<'static, str> {
    Cow::Owned(s.to_string())
}

fn own_attrs(a: &Attributes) -> Attributes<'static> {
    a.iter()
        .map(|(k, v)| {
            let k = match k {
                AttributeKind::Class => AttributeKind::Class,
                AttributeKind::Id => AttributeKind::Id,
                AttributeKind::Pair { key } => AttributeKind::Pair { key: own_str(key) },
                AttributeKind::Comment => AttributeKind::Comment,
            };
            // values are only accessible unescaped, so escape them again
            let v: String = v.parts().collect::<String>().replace('\\', "\\\\");
            (k, AttributeValue::from(v))
        })
        .collect()
}

fn own_container(c: &Container) -> Container<'static> {
    use Container::*;
    match c {
        Document => Document,
        Blockquote => Blockquote,
        List { kind, tight } => List {
            kind: *kind,
            tight: *tight,
        },
        ListItem => ListItem,
        TaskListItem { checked } => TaskListItem { checked: *checked },
        DescriptionList => DescriptionList,
        DescriptionDetails => DescriptionDetails,
        Footnote { label } => Footnote { label: own_str(label) },
        Table => Table,
        TableRow { head } => TableRow { head: *head },
        Section { id } => Section { id: own_str(id) },
        Div { class } => Div { class: own_str(class) },
        Paragraph => Paragraph,
        Heading { level, has_section, id } => Heading {
            level: *level,
            has_section: *has_section,
            id: own_str(id),
        },
        TableCell { alignment, head } => TableCell {
            alignment: *alignment,
            head: *head,
        },
        Caption => Caption,
        DescriptionTerm => DescriptionTerm,
        LinkDefinition { label } => LinkDefinition { label: own_str(label) },
        RawBlock { format } => RawBlock { format: own_str(format) },
        CodeBlock { language } => CodeBlock {
            language: own_str(language),
        },
        Span => Span,
        Link(d, t) => Link(own_str(d), *t),
        Image(d, t) => Image(own_str(d), *t),
        Verbatim => Verbatim,
        Math { display } => Math { display: *display },
        RawInline { format } => RawInline { format: own_str(format) },
        Subscript => Subscript,
        Superscript => Superscript,
        Insert => Insert,
        Delete => Delete,
        Strong => Strong,
        Emphasis => Emphasis,
        Mark => Mark,
    }
}

pub fn own_event(e: &Event) -> Event<'static> {
    match e {
        Event::Start(c, a) => Event::Start(own_container(c), own_attrs(a)),
        Event::End(c) => Event::End(own_container(c)),
        Event::Str(s) => Event::Str(own_str(s)),
        Event::FootnoteReference(s) => Event::FootnoteReference(own_str(s)),
        Event::Symbol(s) => Event::Symbol(own_str(s)),
        Event::LeftSingleQuote => Event::LeftSingleQuote,
        Event::RightSingleQuote => Event::RightSingleQuote,
        Event::LeftDoubleQuote => Event::LeftDoubleQuote,
        Event::RightDoubleQuote => Event::RightDoubleQuote,
        Event::Ellipsis => Event::Ellipsis,
        Event::EnDash => Event::EnDash,
        Event::EmDash => Event::EmDash,
        Event::NonBreakingSpace => Event::NonBreakingSpace,
        Event::Softbreak => Event::Softbreak,
        Event::Hardbreak => Event::Hardbreak,
        Event::Escape => Event::Escape,
        Event::Blankline => Event::Blankline,
        Event::ThematicBreak(a) => Event::ThematicBreak(own_attrs(a)),
        Event::Attributes(a) => Event::Attributes(own_attrs(a)),
    }
}

/// What the pipeline does to an event on its way.
fn transform<'s>(e: Event<'s>, how: u64, out: &mut Vec<Event<'s>>, stats: &mut [u64; 3]) {
    match how % 8 {
        0 | 1 => out.push(e),
        2 => {
            stats[0] += 1;
            out.push(e.clone());
        }
        3 | 4 => {
            stats[1] += 1;
            out.push(own_event(&e));
        }
        _ => match &e {
            Event::Str(s) if s.chars().count() > 1 => {
                stats[2] += 1;
                let mut k = 1 + (how >> 8) as usize % (s.len() - 1);
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                if k == 0 {
                    out.push(e);
                    return;
                }
                match s {
                    Cow::Borrowed(b) if how % 8 < 7 => {
                        out.push(Event::Str(b[..k].into()));
                        out.push(Event::Str(b[k..].into()));
                    }
                    s => {
                        out.push(Event::Str(own_str(&s[..k])));
                        out.push(Event::Str(own_str(&s[k..])));
                    }
                }
            }
            _ => out.push(e),
        },
    }
}

pub fn c13(c: &mut Ctx) -> Res {
    {
        use crate::sessions::probe;
        #[allow(unused_imports)]
        use probe::No;
        if !probe::Is::<Event<'static>>::SEND {
            return fail("not-send", "an event can no longer be sent to another thread");
        }
    }
    let doc = if c.tape.chance(1, 4) {
        gen().doc(&mut c.tape)
    } else {
        small_doc(&mut c.tape)
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {:?}", doc));
    c.note(|| format!("options {cfg:?}"));
    let Some(base) = baseline(c, &doc, &cfg) else { return Ok(()) };
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    let mode = c.tape.weighted(&[3, 3, 3]);
    let seed = u64::from(c.tape.draw(1 << 20));
    let plain = c.tape.chance(1, 6);
    let how = move |i: u64| if plain { 0 } else { mix(seed, i) >> 8 };
    let mut stats = [0u64; 3];
    let got: Result<Result<String, String>, String> = match mode {
        0 => {
            // everything owned, the text overwritten before anything is rendered
            c.count("mode.outlive_source", 1);
            c.note(|| "all events owned, source dropped, then rendered".into());
            let mut src = doc.clone();
            let evs = guard(|| {
                let mut v: Vec<Event<'static>> = Vec::new();
                let mut tmp = Vec::new();
                for (i, e) in Parser::new(&src).enumerate() {
                    outside(|| {
                        tmp.clear();
                        transform(e, how(i as u64), &mut tmp, &mut stats);
                    });
                    outside(|| v.extend(tmp.iter().map(own_event)));
                }
                v
            });
            // the memory is used for something else
            unsafe { src.as_bytes_mut() }.fill(b'#');
            drop(src);
            match evs {
                Ok(v) => guard(|| {
                    let mut s = String::new();
                    cfg.renderer().push_events(v.into_iter(), &mut s).map(|()| s).map_err(|e| e.to_string())
                }),
                Err(p) => return fail("panic", p),
            }
        }
        1 => {
            // a queue on one thread, filled and drained as the schedule says
            c.count("mode.queue", 1);
            let cap = [1, 2, 4, 16, usize::MAX][c.tape.usize(5)];
            let mut queue: VecDeque<Event> = VecDeque::new();
            let mut p = match guard(|| Parser::new(&doc)) {
                Ok(p) => p,
                Err(p) => return fail("panic", p),
            };
            let mut r = inside(|| cfg.renderer());
            let mut s = String::new();
            let mut open = true;
            let mut i = 0;
            let mut sig = 0;
            let mut draws = 0;
            let mut err = None;
            c.note(|| format!("queue of {cap} events, transformation seed {seed}"));
            while open || !queue.is_empty() {
                let fill = open && queue.len() < cap && (queue.is_empty() || draws > 250 || c.tape.chance(1, 2));
                draws += 1;
                let n = if draws < 250 { 1 + c.tape.usize(6) } else { 5 };
                sig = mix(sig, n as u64 * 2 + u64::from(fill));
                for _ in 0..n {
                    if fill {
                        if queue.len() >= cap {
                            break;
                        }
                        match guard(|| p.next()) {
                            Ok(Some(e)) => {
                                let mut tmp = Vec::new();
                                transform(e, how(i), &mut tmp, &mut stats);
                                i += 1;
                                queue.extend(tmp);
                            }
                            Ok(None) => {
                                open = false;
                                break;
                            }
                            Err(p) => return fail("panic", p),
                        }
                    } else if let Some(e) = queue.pop_front() {
                        match guard(|| r.push_event(e, &mut s)) {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => err = Some(e.to_string()),
                            Err(p) => return fail("panic", p),
                        }
                    }
                }
            }
            c.case = mix(c.case, sig);
            c.state(sig);
            c.count("steps", draws);
            Ok(err.map_or(Ok(s), Err))
        }
        _ => {
            // producer and consumer threads with a bounded queue
            c.count("mode.threads", 1);
            let cap = [1, 2, 8, 64][c.tape.usize(4)];
            let gap = [1, 4, 20, 100][c.tape.usize(4)];
            c.note(|| format!("two threads, queue of {cap}, preemption every {gap} points, transformation seed {seed}"));
            type Q<'s> = (VecDeque<Event<'s>>, bool, [u64; 3]);
            let q: Arc<Mutex<Q>> = Arc::new(Mutex::new((VecDeque::new(), false, [0; 3])));
            let res: Arc<Mutex<Option<Result<Result<String, String>, String>>>> = Arc::new(Mutex::new(None));
            struct S<T>(T);
            unsafe impl<T> Send for S<T> {}
            impl<T> S<T> {
                fn get(self) -> T {
                    self.0
                }
            }
            let (a, b) = (S((q.clone(), &doc, cfg.clone())), S((q.clone(), res.clone(), cfg.clone())));
            let producer: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                let (q, doc, _) = a.get();
                let mut i = 0;
                let mut stats = [0u64; 3];
                let r = guard(|| {
                    for e in Parser::new(doc) {
                        let mut tmp = outside(Vec::new);
                        outside(|| transform(e, how(i), &mut tmp, &mut stats));
                        i += 1;
                        for e in tmp {
                            loop {
                                let mut g = outside(|| q.lock().unwrap());
                                if g.0.len() < cap {
                                    outside(|| g.0.push_back(e));
                                    break;
                                }
                                drop(g);
                                sched::blocked();
                            }
                            sched::point(5);
                        }
                    }
                });
                let mut g = q.lock().unwrap_or_else(|e| e.into_inner());
                g.1 = true;
                g.2 = stats;
                drop(r);
            });
            let consumer: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                let (q, res, cfg) = b.get();
                let r = guard(|| {
                    let mut s = String::new();
                    let src = std::iter::from_fn(|| loop {
                        let mut g = outside(|| q.lock().unwrap());
                        if let Some(e) = g.0.pop_front() {
                            drop(g);
                            sched::point(6);
                            return Some(e);
                        }
                        if g.1 {
                            return None;
                        }
                        drop(g);
                        sched::blocked();
                    });
                    cfg.renderer().push_events(src, &mut s).map(|()| s).map_err(|e| e.to_string())
                });
                *res.lock().unwrap() = Some(r);
            });
            let t = |b| unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Box<dyn FnOnce() + Send + 'static>>(b) };
            let rep = sched::run(&mut c.tape, gap, 400, 2 << 20, vec![t(producer), t(consumer)]);
            stats = q.lock().unwrap().2;
            c.count("preemption_points", rep.points);
            c.count("switches", rep.switches);
            c.count("queue_waits", rep.blocked);
            c.state(rep.hash);
            c.case = mix(c.case, rep.hash);
            c.event(rep.hash);
            let r = res.lock().unwrap().take();
            r.unwrap_or(Err("the consumer did not finish".into()))
        }
    };
    c.nontrivial = true;
    c.count("events_cloned", stats[0]);
    c.count("events_owned", stats[1]);
    c.count("text_events_split", stats[2]);
    c.case = mix(c.case, seed);
    match got {
        Ok(Ok(s)) => {
            c.event_bytes(s.as_bytes());
            same("output-differs", ["owned events", "queued events", "events from another thread"][mode], s.as_bytes(), base.as_bytes())
        }
        Ok(Err(e)) => fail("error-without-fault", e),
        Err(p) => fail("panic", p),
    }
}

// ---- C14 ------------------------------------------------------------------------------------

/// One history with its own verdict ignored: a wrong result is another property's business.
fn one_history(c: &mut Ctx, kind: usize) {
    let (case, nt) = (c.case, c.nontrivial);
    let st = c.states.len();
    let _ = match kind {
        0 => crate::scen_sink::history(c, false),
        1 => c06(c),
        2 => crate::scen_sink::c02(c),
        3 => c13(c),
        _ => unwound(c),
    };
    c.states.truncate(st);
    c.case = case;
    c.nontrivial = nt;
}

/// Renderer, parsers and events are all dropped by a panic that passes through their owner.
fn unwound(c: &mut Ctx) -> Res {
    let doc = if c.tape.chance(1, 6) { gen().doc(&mut c.tape) } else { small_doc(&mut c.tape) };
    let cfg = Cfg::draw(&mut c.tape);
    let mut plan = Plan::clean();
    let at = c.tape.usize(60);
    let how = c.tape.draw(6);
    if how < 3 {
        plan.trigger = Trigger::Byte(c.tape.usize(2 * doc.len() + 1));
        plan.sticky = true;
    }
    c.note(|| format!("unwinding through the owner of everything, {how} {at} {plan:?}, document {}", show(doc.as_bytes())));
    let mut io = SimSink::new(plan);
    let mut fm = SimFmt::new(plan);
    let r = guard(|| {
        let mut r = cfg.renderer();
        let mut n = 0;
        let p = Parser::new(&doc);
        let other = p.clone();
        let src = p.inspect(|_| {
            n += 1;
            if how >= 3 && n > at {
                outside(|| std::panic::panic_any("injected source panic".to_string()));
            }
        });
        let src = Lease(src, Handle::new());
        match how {
            0 => drop(r.push_events(src, Lent(&mut fm, Handle::new()))),
            1 => drop(r.write_events(src, Lent(&mut io, Handle::new()))),
            2 => {
                let kept: Vec<Event> = src.collect();
                for e in &kept {
                    let _ = r.write_event(e.clone(), Lent(&mut io, Handle::new()));
                }
            }
            3 => drop(r.push_events(src, Lent(&mut fm, Handle::new()))),
            4 => {
                let kept: Vec<Event> = src.map(|e| own_event(&e)).collect();
                let _ = r.push_events(kept.into_iter(), Lent(&mut fm, Handle::new()));
            }
            _ => {
                let mut o = other.clone().into_offset_iter();
                let _ = o.nth(at / 2);
                for e in src {
                    let _ = r.push_event(e, Lent(&mut fm, Handle::new()));
                }
                drop(o);
            }
        }
        // (and if nothing failed, it does here)
        drop(other);
    });
    c.count("unwound", u64::from(r.is_err()));
    io.tally(c);
    fm.tally(c);
    Ok(())
}

struct Lease<I>(I, #[allow(dead_code)] Handle);
impl<I: Iterator> Iterator for Lease<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

/// The same history again: the same draws from a copy of the tape.
fn again(c: &mut Ctx, t: &[u32], kind: usize) {
    let outer = std::mem::replace(&mut c.tape, Tape::replay(t.to_vec()));
    let tr = std::mem::replace(&mut c.trace, false);
    let counters = std::mem::take(&mut c.counters);
    one_history(c, kind);
    c.counters = counters;
    c.trace = tr;
    c.tape = outer;
}

pub fn c14(c: &mut Ctx) -> Res {
    let live = || crate::alloc::LIVE.load(SeqCst) as i64;
    let start = live();
    let mut after = vec![start];
    let mut rose = 0;
    let mut rounds = 0;
    let mut i = 0;
    while c.tape.more(i, 1, 6, 3, 4) {
        i += 1;
        let kind = c.tape.weighted(&[4, 3, 1, 2, 4]);
        c.note(|| format!("history of kind {kind}, four times"));
        let from = c.tape.used();
        let handles = Handle::live();
        one_history(c, kind);
        if Handle::live() > handles {
            return fail("sink-or-source-not-dropped", format!("{} sinks or event sources handed over by value were never dropped", Handle::live() - handles));
        }
        let t = c.tape.slice(from);
        let mut at = vec![live()];
        for _ in 0..3 {
            again(c, &t, kind);
            at.push(live());
        }
        c.count(["history.renderer", "history.parser", "history.failing_sinks", "history.pipeline", "history.unwound"][kind], 4);
        c.nontrivial = true;
        c.case = mix(c.case, hash_bytes(&t.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()) ^ kind as u64);
        c.state(mix(kind as u64, c.case));
        c.event((at[3] - start) as u64);
        if at[3] > at[0] {
            // something was still set up after the first time: does that come to an end?
            let mut seen = Vec::new();
            for n in [16, 64, 256] {
                while at.len() < n {
                    again(c, &t, kind);
                    at.push(live());
                }
                seen.push(live());
            }
            c.count("repeated_256_times", 1);
            c.note(|| format!("live bytes after 16, 64 and 256 repetitions: {seen:?}"));
            if seen[0] > at[3] && seen[1] > seen[0] && seen[2] > seen[1] {
                return fail(
                    "memory-leak",
                    format!("live bytes {start} at the beginning, {} after 4, {seen:?} after 16, 64 and 256 repetitions of the same history", at[3]),
                );
            }
        }
        c.note(|| format!("live bytes of the library after each repetition: {at:?}"));
        // the first repetition may set something up once, later ones may not
        if at[1] > at[0] && at[2] > at[1] && at[3] > at[2] {
            return fail(
                "memory-leak",
                format!("live bytes {start} at the beginning, after each of 4 repetitions of the same history {at:?}"),
            );
        }
        rounds += 1;
        let end = *at.last().unwrap();
        if end > *after.last().unwrap() {
            rose += 1;
        }
        after.push(end);
    }
    // what is kept must not depend on how much was processed
    if rounds >= 4 && rose == rounds {
        return fail("memory-grows", format!("live bytes rose with every one of {rounds} different histories: {after:?}"));
    }
    Ok(())
}
