//! C17: memory that runs out, and how much of it is needed.

use crate::alloc::{self, outside, Shortage};
use crate::engine::{fail, Ctx, Res};
use crate::scen_lib::{dense, nesting};
use crate::sys;
use crate::tape::{hash_bytes, mix, Rng, Tape};
use crate::world::*;
use jotdown::{Attributes, Event, Parser, Render};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::{fmt, io};

/// Peak of live bytes allowed: per byte of text and output, and to begin with.
const PER_BYTE: usize = 500;
const BASE: usize = 64 << 10;

// ---- a box that both processes see ----------------------------------------------------------

const ROOM: usize = 8 << 20;
static BOX: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
struct Mailbox(*mut u64);

const OUTCOME: usize = 0;
const REFUSALS: usize = 1;
const LEN: usize = 2;
const HEAD: usize = 8;

impl Mailbox {
    fn get() -> Self {
        let mut p = BOX.load(Relaxed);
        if p == 0 {
            unsafe {
                p = sys::mmap(std::ptr::null_mut(), HEAD * 8 + ROOM, 3, 0x21 | 0x4000, -1, 0) as usize;
            }
            assert!(p as isize != -1);
            BOX.store(p, Relaxed);
        }
        Mailbox(p as *mut u64)
    }
    fn word(self, i: usize) -> u64 {
        unsafe { self.0.add(i).read_volatile() }
    }
    fn put(self, i: usize, v: u64) {
        unsafe { self.0.add(i).write_volatile(v) };
    }
    fn clear(self) {
        (0..HEAD).for_each(|i| self.put(i, 0));
    }
    fn append(self, b: &[u8]) {
        let n = self.word(LEN) as usize;
        if n + b.len() > ROOM {
            crate::engine::die("runaway-output");
        }
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(HEAD).cast::<u8>().add(n), b.len());
        }
        self.put(LEN, (n + b.len()) as u64);
    }
    fn bytes(self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.0.add(HEAD).cast::<u8>(), self.word(LEN) as usize) }.to_vec()
    }
}

/// What is delivered survives the process that delivered it.
struct Device {
    to: Mailbox,
    rng: Option<Rng>,
}

impl fmt::Write for Device {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        outside(|| self.to.append(s.as_bytes()));
        Ok(())
    }
}

impl io::Write for Device {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        outside(|| {
            let mut n = b.len();
            if let Some(r) = &mut self.rng {
                match r.next() % 6 {
                    0 => return Err(io::ErrorKind::Interrupted.into()),
                    1 => n = n.min(1 + (r.next() % 5) as usize),
                    _ => {}
                }
            }
            self.to.append(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const HOW: [&str; 8] = [
    "push_events",
    "write_events",
    "push_event each",
    "write_event each",
    "render_to_string",
    "parse",
    "parse with offsets, through a clone",
    "read attributes",
];

/// The work; everything that it gets done goes into the mailbox. False: it reports a failure.
fn work(doc: &str, cfg: &Cfg, how: usize, noise: Option<u64>, to: Mailbox) -> bool {
    let mut dev = Device {
        to,
        rng: noise.map(Rng::new),
    };
    let say = |x: &dyn fmt::Debug| outside(|| to.append(format!("{x:?}\n").as_bytes()));
    match how {
        0 => cfg.renderer().push_events(Parser::new(doc), &mut dev).is_ok(),
        1 => cfg.renderer().write_events(Parser::new(doc), &mut dev).is_ok(),
        2 => {
            let mut r = cfg.renderer();
            let mut ok = true;
            for e in Parser::new(doc) {
                ok = ok && r.push_event(e, &mut dev).is_ok();
            }
            ok
        }
        3 => {
            let mut r = cfg.renderer();
            let mut ok = true;
            for e in Parser::new(doc) {
                ok = ok && r.write_event(e, &mut dev).is_ok();
            }
            ok
        }
        4 => {
            let s = jotdown::html::render_to_string(Parser::new(doc));
            outside(|| to.append(s.as_bytes()));
            true
        }
        5 => {
            for e in Parser::new(doc) {
                say(&e);
            }
            true
        }
        6 => {
            let mut p = Parser::new(doc);
            let _ = p.next();
            for (e, s) in p.clone().into_offset_iter() {
                say(&(&e, s));
            }
            for e in p {
                say(&e);
            }
            true
        }
        _ => {
            for (at, _) in doc.match_indices('{').take(30) {
                match Attributes::try_from(&doc[at..]) {
                    Ok(a) => say(&a),
                    Err(e) => say(&e),
                }
            }
            true
        }
    }
}

/// What a long text may be inside of.
const FRAMES: [(&str, &str); 17] = [
    ("", ""),
    ("# ", "\n"),
    ("## a\n# ", "\n\n# b\n"),
    ("- ", "\n- b\n"),
    ("> ", "\n"),
    ("| ", "|\n"),
    ("[", "](u)\n"),
    ("[a](", ")\n"),
    ("![", "](u)\n"),
    ("{", "}\nb\n"),
    ("a{", "}\n"),
    ("[^a]: ", "\n\n[^a]\n"),
    ("[a]: ", "\n\n[a][]\n"),
    (": ", "\n\n  b\n"),
    ("```\n", "\n```\n"),
    ("`", "`\n"),
    ("| a |\n|---|\n^ ", "\n"),
];

/// A pattern many times over, which is where what is superfluous adds up.
pub fn repetitive(t: &mut Tape, cap: usize) -> String {
    let unit = small_doc(t);
    let unit = match t.draw(3) {
        0 => unit,
        1 => unit.lines().next().unwrap_or("").to_string(),
        _ => {
            // one piece of it
            let cut: Vec<usize> = unit.char_indices().map(|(i, _)| i).chain([unit.len()]).collect();
            let a = t.usize(cut.len());
            let b = (a + 1 + t.usize(12)).min(cut.len() - 1).max(a);
            unit[cut[a]..cut[b]].to_string()
        }
    };
    let unit = if t.chance(1, 3) { (*t.pick(&["a", "é", "a=b", "[a](b)", ".c", "*a*", "[^a]", "[a][]", "|", "`"])).to_string() } else { unit };
    if t.chance(1, 3) {
        return named(t, &unit, cap);
    }
    if t.chance(1, 20) {
        return expanding(t, &unit);
    }
    let glue = *t.pick(&["", "\n", "\n\n", " ", "x", " ", "\n"]);
    let frame = if t.chance(1, 2) { t.usize(FRAMES.len()) } else { 0 };
    let size = [500, 4000, 16_000, 50_000][t.weighted(&[2, 3, 2, 2])].min(cap);
    let numbered = t.chance(1, 4);
    let n = size / (unit.len() + glue.len()).max(1);
    let mut s = FRAMES[frame].0.to_string();
    for i in 0..n {
        s.push_str(&unit);
        if numbered {
            s.push_str(&i.to_string());
        }
        s.push_str(glue);
    }
    s.push_str(FRAMES[frame].1);
    if t.chance(1, 4) {
        s = deep(t, &s);
    }
    s
}

/// Everything within many containers, whose markers the lines do or do not repeat.
fn deep(t: &mut Tape, s: &str) -> String {
    let marker = *t.pick(&["> ", "- ", "1. ", ": ", "- [ ] ", "[^a]: ", "::: a\n", "* "]);
    let depth = [3, 20, 100, 400][t.usize(4)];
    let depth = crate::dict::int_or(t, depth, 500);
    let first = marker.repeat(depth);
    if marker.ends_with('\n') {
        // each fence longer than those inside
        let open: String = (0..depth).map(|i| format!("{} a\n", ":".repeat(2 + depth - i))).collect();
        return format!("{open}{s}\n");
    }
    match t.draw(2) {
        // the lines after the first are lazy, if they can be
        0 => format!("{first}{s}\n"),
        1 => {
            let next = " ".repeat(first.len());
            let least = s.lines().count().max(1);
            // (at most a megabyte of it)
            let k = (1usize << 20).div_ceil(least).min(next.len());
            s.lines().enumerate().map(|(i, l)| format!("{}{l}\n", if i == 0 { &first[..] } else { &next[..k] })).collect()
        }
        _ => {
            let next = if marker == "> " { marker.repeat(depth.min((1usize << 19) / s.lines().count().max(1))) } else { String::new() };
            s.lines().enumerate().map(|(i, l)| format!("{}{l}\n", if i == 0 { &first[..] } else { &next[..] })).collect()
        }
    }
}

/// Many references, where they are kept or dropped, to one large definition.
fn expanding(t: &mut Tape, unit: &str) -> String {
    let size = [500, 4000, 12_000][t.usize(3)];
    let url = if t.chance(1, 2) { "x".repeat(size) } else { unit.replace(char::is_whitespace, "").repeat(size / unit.len().max(1)) };
    let def = match t.draw(3) {
        0 => format!("[a]: {url}\n"),
        1 => format!("[a]:\n {url}\n y\n"),
        2 => format!("{{b=\"{url}\"}}\n[a]: x\n"),
        _ => format!("# {url}\n"),
    };
    let one = match t.draw(3) {
        0 => "[a][] ".to_string(),
        1 => "![a][] ".to_string(),
        2 => format!("[{unit}][a]"),
        _ => format!("[][a]{{c={}}}", t.usize(9)),
    };
    let refs = one.repeat(size / one.len());
    match t.draw(3) {
        0 => format!("[^b]: {refs}\n\n{def}"),
        1 => format!("{def}\n![{refs}](c)\n"),
        2 => format!("{def}\n[^b]:\n\n  - {refs}\n"),
        _ => format!("{refs}\n\n{def}"),
    }
}

/// Things that may have a name or number, in place of the @.
pub const KINDS: &[&str] = &[
    "[@]: a\n", "[@]: a\n b\n", "[@]:\n a\n b\n\n", "{a=@}\n[@]: b\n", "[^@]: a\n\n", "[^@]: a\n\n b\n\n", "# @\n\n", "## @\nb\n\n",
    "{#@}\na\n\n", "{.@}\na\n\n", "{@=1}\na\n\n", "[@][] ", "[@][]\n\n", "![@][]", "[a][@]", "[^@] ", "[a]{#@}", "[a]{.@ b=c}", "[a]{@=1}", "`@`{=@}",
    "::: @\na\n:::\n\n", "``` @\na\n```\n\n", "``` =@\na\n```\n\n", "- @\n", "@. a\n", "- @\n\n b\n\n", ": @\n\n b\n\n", "|@|a|\n", "|@|\n\n", ":@: ", "<http://@>",
    "[a](@) ", "[a](@\nb) ", "$`@` ", "_@_ ", "{% @ %} ", "> @\n\n", "\"@\" ", "a\n@\n",
];

/// Very many things of one or two kinds, each with a name of its own.
fn named(t: &mut Tape, unit: &str, cap: usize) -> String {
    // a number takes the place of one of the unit's words
    let own = {
        let i = t.usize(unit.len() + 1);
        let word = |c: char| c.is_alphanumeric();
        let a = unit.char_indices().map(|x| x.0).find(|j| *j >= i && unit[*j..].starts_with(word)).unwrap_or(unit.len());
        let b = unit[a..].find(|c: char| !word(c)).map_or(unit.len(), |j| a + j);
        format!("{}@{}\n", &unit[..a], &unit[b..])
    };
    let mut kinds: Vec<&str> = vec![t.pick(KINDS)];
    if t.chance(1, 2) {
        kinds.push(t.pick(KINDS));
    }
    if t.chance(1, 3) {
        kinds[0] = &own;
    }
    let mixed = t.chance(1, 3);
    let size = [500, 4000, 16_000, 50_000][t.weighted(&[2, 3, 2, 2])].min(cap);
    let n = size / kinds.iter().map(|k| k.len() + 3).sum::<usize>();
    let mut s = String::new();
    let mut put = |k: &str, i: usize| s.push_str(&k.replace('@', &i.to_string()));
    if mixed {
        (0..n).for_each(|i| kinds.iter().for_each(|k| put(k, i)));
    } else {
        kinds.iter().for_each(|k| (0..n).for_each(|i| put(k, i)));
    }
    s
}

/// How much text an event holds.
fn content(e: &Event) -> usize {
    use jotdown::Container as C;
    use jotdown::Event as E;
    let of = |c: &C| match c {
        C::Link(s, _) | C::Image(s, _) => s.len(),
        C::Heading { id: s, .. } | C::Section { id: s } => s.len(),
        C::Footnote { label: s } | C::LinkDefinition { label: s } => s.len(),
        C::Div { class: s } | C::CodeBlock { language: s } | C::RawBlock { format: s } | C::RawInline { format: s } => s.len(),
        _ => 0,
    };
    let attrs = |a: &jotdown::Attributes| a.iter().map(|(k, v)| k.key().map_or(0, str::len) + v.parts().map(str::len).sum::<usize>()).sum();
    match e {
        E::Start(c, a) => of(c) + attrs(a),
        E::End(c) => of(c),
        E::Str(s) | E::FootnoteReference(s) | E::Symbol(s) => s.len(),
        E::ThematicBreak(a) | E::Attributes(a) => attrs(a),
        _ => 0,
    }
}

pub fn c17(c: &mut Ctx) -> Res {
    let doc = match c.tape.weighted(&[4, 2, 2]) {
        0 => small_doc(&mut c.tape),
        1 => gen().doc(&mut c.tape),
        _ => repetitive(&mut c.tape, usize::MAX),
    };
    let cfg = Cfg::draw(&mut c.tape);
    c.note(|| format!("document {}, {cfg:?}", show(doc.as_bytes())));
    if dense(&doc) || nesting(&doc) > 600 {
        c.count("skipped.too_deep_or_dense", 1);
        return Ok(());
    }
    let Some(html) = baseline(c, &doc, &cfg) else { return Ok(()) };
    if html.len() > 2 << 20 {
        c.count("skipped.long", 1);
        return Ok(());
    }
    c.case = mix(hash_bytes(doc.as_bytes()), cfg.hash());
    // how much is needed
    struct Void;
    impl fmt::Write for Void {
        fn write_str(&mut self, _: &str) -> fmt::Result {
            Ok(())
        }
    }
    let start = alloc::watch_peak();
    let r = guard(|| cfg.renderer().push_events(Parser::new(&doc), Void));
    let peak = alloc::PEAK.load(Relaxed) - start;
    if !matches!(r, Ok(Ok(()))) {
        return fail("failed-without-fault", format!("{r:?}"));
    }
    c.count("bytes_of_text_and_output", (doc.len() + html.len()) as u64);
    c.count("bytes_needed", peak as u64);
    // a reference brings the whole definition along, also where nothing of it is ever output
    let events = || Parser::new(&doc).map(|e| content(&e)).sum::<usize>();
    let hungry = |more: usize| peak > BASE + PER_BYTE * (doc.len() + html.len() + more);
    if hungry(0) {
        c.count("definitions_expanded", 1);
    }
    if hungry(0) && hungry(events()) {
        return fail("memory-hunger", format!("{peak} bytes for a text of {} bytes and an output of {}", doc.len(), html.len()));
    }
    if (doc.len() > 20_000 && c.tape.chance(5, 6)) || events() > 1 << 20 {
        return Ok(());
    }
    // and if there is less
    let mb = Mailbox::get();
    let mut k = 0;
    let mut sig = 0u64;
    while c.tape.more(k, 1, 12, 5, 6) {
        k += 1;
        let how = c.tape.usize(HOW.len());
        let noise = c.tape.chance(1, 2).then(|| u64::from(c.tape.draw(1 << 16)));
        mb.clear();
        let before = alloc::LIB_ALLOCS.load(Relaxed);
        let start = alloc::watch_peak();
        if !matches!(guard(|| work(&doc, &cfg, how, noise, mb)), Ok(true)) {
            c.count("skipped.baseline_fails", 1);
            return Ok(());
        }
        let allocs = alloc::LIB_ALLOCS.load(Relaxed) - before;
        let peak = alloc::PEAK.load(Relaxed) - start;
        c.count("steps", allocs);
        let want = mb.bytes();
        if allocs == 0 {
            continue;
        }
        let at = |t: &mut Tape| match t.draw(3) {
            0 => t.usize(allocs as usize) as u64,
            1 => t.usize(allocs.min(12) as usize) as u64,
            _ => allocs - 1 - t.usize(allocs.min(12) as usize) as u64,
        };
        let plan = match c.tape.weighted(&[3, 2, 1, 2]) {
            0 => Shortage::At(at(&mut c.tape)),
            1 => Shortage::From(at(&mut c.tape)),
            2 => Shortage::Larger(c.tape.usize(4096)),
            _ => Shortage::Quota(c.tape.usize(peak.max(1))),
        };
        c.note(|| format!("{}: {plan:?} of {allocs} allocations, {peak} bytes", HOW[how]));
        mb.clear();
        let status = in_child(mb, plan, || work(&doc, &cfg, how, noise, mb));
        let got = mb.bytes();
        let refusals = mb.word(REFUSALS);
        let outcome = mb.word(OUTCOME);
        let died = status & 0x7f;
        c.count(
            match plan {
                Shortage::At(_) => "fault.allocation_once",
                Shortage::From(_) => "fault.allocation_from_then_on",
                Shortage::Larger(_) => "fault.allocation_large",
                _ => "fault.allocation_quota",
            },
            1,
        );
        let end = match (outcome, died, status >> 8) {
            (1, 0, 0) => "completed",
            (2, 0, 0) => "reported",
            (3, 0, 0) => "panicked",
            (0, 6, _) => "aborted",
            (0, 0, 7) => return fail("runaway", format!("{} with {plan:?} does not end", HOW[how])),
            (o, s, x) => return fail("crash", format!("{} with {plan:?}: outcome {o}, signal {s}, status {x}", HOW[how])),
        };
        c.count(
            match end {
                "completed" => "end.completed",
                "reported" => "end.reported",
                "panicked" => "end.panicked",
                _ => "end.aborted",
            },
            1,
        );
        let why = || format!("{} with {plan:?} {end} after {} of {} bytes", HOW[how], got.len(), want.len());
        if !want.starts_with(&got) {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len());
            return fail("wrong-output", format!("{}; differs at {i}", why()));
        }
        if end == "completed" && got.len() != want.len() {
            return fail("incomplete-output", why());
        }
        if refusals == 0 && outcome == 0 {
            return fail("failed-without-fault", why());
        }
        if refusals > 0 {
            c.nontrivial = true;
        }
        sig = mix(sig, mix(got.len() as u64, outcome * 64 + how as u64));
        let tail = String::from_utf8_lossy(&got[got.len().saturating_sub(10)..]).replace(|c: char| c.is_ascii_digit(), "0");
        c.state(mix(hash_bytes(tail.as_bytes()), how as u64 * 8 + outcome));
    }
    c.case = mix(c.case, sig);
    c.event(sig);
    Ok(())
}

/// Runs in a forked process, which may be aborted. Returns its status.
fn in_child(mb: Mailbox, plan: Shortage, f: impl FnOnce() -> bool) -> i32 {
    unsafe {
        let pid = sys::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            sys::prctl(1, 9);
            // no core files
            sys::prctl(4, 0);
            let null = sys::open(c"/dev/null".as_ptr(), 2);
            sys::dup2(null, 2);
            crate::engine::set_out(-1);
            alloc::shortage(plan);
            alloc::REFUSED_TO.store(mb.0.add(REFUSALS) as usize, Relaxed);
            let r = guard(f);
            alloc::shortage(Shortage::None);
            mb.put(
                OUTCOME,
                match r {
                    Ok(true) => 1,
                    Ok(false) => 2,
                    Err(_) => 3,
                },
            );
            sys::_exit(0);
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        st
    }
}
