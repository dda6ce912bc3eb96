//! What surrounds the library in a run: documents, renderer options, and simulated sinks.

use crate::alloc::{inside, outside};
use crate::docgen::{Gen, Size};
use crate::engine::{Ctx, Violation};
use crate::sched;
use crate::tape::{hash_bytes, mix, Rng, Tape};
use jotdown::html::{Indentation, Renderer};
use jotdown::{Event, Parser, Render};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

static GEN: OnceLock<Gen> = OnceLock::new();

pub fn gen() -> &'static Gen {
    GEN.get_or_init(Gen::new)
}

pub fn small_doc(t: &mut Tape) -> String {
    let s = [Size::Small, Size::Tiny][t.weighted(&[3, 2])];
    gen().doc_sized(t, s)
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: u32,
    pub string: &'static str,
    pub level: usize,
}

/// What lines are indented by.
pub fn indent(t: &mut Tape) -> &'static str {
    let s = if t.chance(1, if crate::dict::fresh() { 4 } else { 60 }) {
        crate::dict::word(t)
    } else {
        *t.pick(&["\t", "  ", "é", "    ", "--->", "", " "])
    };
    if s.contains('\0') {
        "\t"
    } else {
        s
    }
}

/// How far everything is indented.
pub fn level(t: &mut Tape, n: usize) -> usize {
    match t.weighted(&[30, 30, if crate::dict::fresh() { 10 } else { 1 }, 1]) {
        0 => 0,
        1 => t.usize(n),
        2 => crate::dict::int(t).min(300),
        _ => [17, 31, 32, 64, 127, 128, 255, 256, 257][t.usize(9)],
    }
}

impl Cfg {
    pub fn draw(t: &mut Tape) -> Self {
        let kind = t.weighted(&[4, 2, 3]) as u32;
        let (mut string, mut start) = ("", 0);
        if kind == 2 {
            string = indent(t);
            start = level(t, 4);
        }
        Cfg { kind, string, level: start }
    }
    pub fn renderer<'s>(&self) -> Renderer<'s> {
        match self.kind {
            0 => Renderer::default(),
            1 => Renderer::minified(),
            _ => Renderer::indented(Indentation {
                string: self.string.to_string(),
                initial_level: self.level,
            }),
        }
    }
    pub fn hash(&self) -> u64 {
        mix(u64::from(self.kind), hash_bytes(self.string.as_bytes()) ^ self.level as u64)
    }
}

/// Runs library code, turning a panic into its description.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(|| inside(f))) {
        Ok(r) => Ok(r),
        Err(_) => Err(crate::engine::last_panic()),
    }
}

/// Fault-free result of rendering alone, to a string; `None` if the library cannot even do that
/// (a matter of the not-applicable property P01, not of the ones decided here).
pub fn baseline(c: &mut Ctx, doc: &str, cfg: &Cfg) -> Option<String> {
    let r = guard(|| {
        let mut s = String::new();
        cfg.renderer().push_events(Parser::new(doc), &mut s).map(|()| s)
    });
    match r {
        Ok(Ok(s)) => Some(s),
        _ => {
            c.count("skipped.baseline_fails", 1);
            None
        }
    }
}

pub fn events_of<'s>(c: &mut Ctx, doc: &'s str) -> Option<Vec<Event<'s>>> {
    let r = guard(|| Parser::new(doc).collect::<Vec<_>>());
    if r.is_err() {
        c.count("skipped.baseline_fails", 1);
    }
    r.ok()
}

// ---- errors ---------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tag(pub u64);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for Tag {}

const RAW: [i32; 9] = [28, 5, 32, 122, 11, 110, 27, 104, 9];
const RAW_NAME: [&str; 9] = [
    "fault.enospc",
    "fault.eio",
    "fault.epipe",
    "fault.edquot",
    "fault.eagain",
    "fault.etimedout",
    "fault.efbig",
    "fault.econnreset",
    "fault.ebadf",
];
const CUSTOM: [io::ErrorKind; 6 + 24] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    // the others, as custom errors only
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::TimedOut,
    io::ErrorKind::StorageFull,
    io::ErrorKind::QuotaExceeded,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::Deadlock,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
];
const PLAIN: [io::ErrorKind; 4] = [
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
];
const COMMON: usize = 6;
pub const ERRS: u32 = (RAW.len() + COMMON + PLAIN.len() + 1) as u32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ErrSpec {
    Raw(usize),
    /// Any other number, even one that means nothing.
    Errno(i32),
    Custom(usize, u64),
    Plain(usize),
    Zero,
}

impl ErrSpec {
    pub fn draw(t: &mut Tape) -> Self {
        let i = t.draw(ERRS + 4) as usize;
        if i >= ERRS as usize {
            return match i - ERRS as usize {
                0 | 1 => match 1 + t.draw(133) as i32 {
                    4 => ErrSpec::Errno(-1),
                    n => ErrSpec::Errno(n),
                },
                2 => ErrSpec::Custom(t.usize(CUSTOM.len()), 1000 + u64::from(t.draw(1000))),
                _ => ErrSpec::Errno([0, 512, 4096, i32::MAX, i32::MIN][t.usize(5)]),
            };
        }
        if i < RAW.len() {
            ErrSpec::Raw(i)
        } else if i < RAW.len() + COMMON {
            ErrSpec::Custom(i - RAW.len(), 1000 + u64::from(t.draw(1000)))
        } else if i < RAW.len() + COMMON + PLAIN.len() {
            ErrSpec::Plain(i - RAW.len() - COMMON)
        } else {
            ErrSpec::Zero
        }
    }
    pub fn make(self) -> io::Result<usize> {
        match self {
            ErrSpec::Raw(i) => Err(io::Error::from_raw_os_error(RAW[i])),
            ErrSpec::Errno(n) => Err(io::Error::from_raw_os_error(n)),
            ErrSpec::Custom(i, n) => Err(io::Error::new(CUSTOM[i], Tag(n))),
            ErrSpec::Plain(i) => Err(PLAIN[i].into()),
            ErrSpec::Zero => Ok(0),
        }
    }
    /// Is `e` this very error?
    pub fn is(self, e: &io::Error) -> bool {
        match self {
            ErrSpec::Raw(i) => e.raw_os_error() == Some(RAW[i]),
            ErrSpec::Errno(n) => e.raw_os_error() == Some(n),
            ErrSpec::Custom(i, n) => {
                e.kind() == CUSTOM[i] && e.get_ref().and_then(|x| x.downcast_ref::<Tag>()) == Some(&Tag(n))
            }
            ErrSpec::Plain(i) => e.kind() == PLAIN[i] && e.raw_os_error().is_none() && e.get_ref().is_none(),
            ErrSpec::Zero => e.kind() == io::ErrorKind::WriteZero,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            ErrSpec::Raw(i) => RAW_NAME[i],
            ErrSpec::Errno(_) => "fault.other_errno",
            ErrSpec::Custom(..) => "fault.custom_error",
            ErrSpec::Plain(_) => "fault.plain_error",
            ErrSpec::Zero => "fault.write_zero",
        }
    }
    pub fn id(self) -> u64 {
        match self {
            ErrSpec::Raw(i) => i as u64,
            ErrSpec::Errno(n) => 400 + u64::from(n as u32),
            ErrSpec::Custom(i, _) => 100 + i as u64,
            ErrSpec::Plain(i) => 200 + i as u64,
            ErrSpec::Zero => 300,
        }
    }
}

// ---- byte sink ------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trigger {
    Never,
    /// The device accepts this many bytes, then fails.
    Byte(usize),
    /// This write call fails (counting only calls that would have made progress).
    Call(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Action {
    Error(ErrSpec),
    Panic,
}

/// Benign behaviour: how much of a write is accepted, and when it is interrupted.
#[derive(Clone, Copy, Debug, Default)]
pub struct Noise {
    pub short: u32,
    pub k: usize,
    pub eintr: u32,
    pub seed: u64,
    /// Interrupted this often in a row, once, at this call.
    pub long: Option<(u64, u32)>,
}

impl Noise {
    pub fn draw(t: &mut Tape) -> Self {
        let short = t.weighted(&[2, 2, 2, 3]) as u32;
        let k = if short == 2 {
            let k = [1, 2, 3, 5, 8, 16, 64][t.usize(7)];
            crate::dict::int_or(t, k, 1 << 20).max(1)
        } else {
            0
        };
        let eintr = t.weighted(&[3, 2, 3, 1]) as u32;
        let seed = if short == 3 || eintr > 1 {
            u64::from(t.draw(1 << 16))
        } else {
            0
        };
        let long = t.chance(1, 150).then(|| {
            let at = u64::from(t.draw(12));
            let n = [20, 110, 300, 1100, 5000, 66000][t.weighted(&[6, 6, 6, 4, 2, 1])];
            (at, crate::dict::int_or(t, n, 100_000) as u32)
        });
        Noise { short, k, eintr, seed, long }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub noise: Noise,
    pub trigger: Trigger,
    pub action: Action,
    /// Keeps failing after the first failure.
    pub sticky: bool,
}

impl Plan {
    pub fn clean() -> Self {
        Plan {
            noise: Noise::default(),
            trigger: Trigger::Never,
            action: Action::Panic,
            sticky: true,
        }
    }
}

thread_local! {
    /// What sinks and sources of this thread do, besides their job, when the library calls them.
    static REENTER: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

/// Sinks and event sources are the caller's code, and may use the library themselves.
pub fn reenter() {
    outside(|| {
        let f = REENTER.with(|r| r.borrow().clone());
        if let Some(f) = f {
            f();
        }
    });
}

pub fn set_reenter(f: Option<Rc<dyn Fn()>>) {
    REENTER.with(|r| *r.borrow_mut() = f);
}

thread_local! {
    static HANDLES: Cell<i64> = const { Cell::new(0) };
}

/// Part of sinks and sources that the library gets by value, and must drop.
pub struct Handle;
impl Handle {
    pub fn new() -> Self {
        HANDLES.with(|h| h.set(h.get() + 1));
        Handle
    }
    pub fn live() -> i64 {
        HANDLES.with(Cell::get)
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        HANDLES.with(|h| h.set(h.get() - 1));
    }
}

/// A sink that is borrowed, handed over by value.
pub struct Lent<'a, T>(pub &'a mut T, pub Handle);
impl<T: io::Write> io::Write for Lent<'_, T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl<T: std::fmt::Write> std::fmt::Write for Lent<'_, T> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.write_str(s)
    }
}

pub struct SimSink {
    pub plan: Plan,
    pub got: Vec<u8>,
    pub limit: usize,
    pub calls: u64,
    pub progress: u64,
    pub fired: u64,
    pub after: u64,
    pub interrupts: u64,
    pub shorts: u64,
    pub flushes: u64,
    burst: u32,
    rng: Rng,
}

impl SimSink {
    pub fn new(plan: Plan) -> Self {
        SimSink {
            plan,
            got: Vec::new(),
            limit: usize::MAX,
            calls: 0,
            progress: 0,
            fired: 0,
            after: 0,
            interrupts: 0,
            shorts: 0,
            flushes: 0,
            burst: 0,
            rng: Rng::new(mix(plan.noise.seed, 77)),
        }
    }
    fn fire(&mut self) -> io::Result<usize> {
        self.fired += 1;
        match self.plan.action {
            Action::Error(e) => e.make(),
            Action::Panic => std::panic::panic_any("injected sink panic".to_string()),
        }
    }
    fn accept(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.fired > 0 {
            self.after += 1;
            if self.plan.sticky {
                return self.fire();
            }
        }
        if self.after > 50_000_000 {
            crate::engine::die("endless-writes-after-error");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.plan.noise;
        let interrupt = match n.eintr {
            0 => false,
            1 => self.burst == 0,
            2 => self.burst < 4 && self.rng.next() % 3 == 0,
            _ => self.burst < 6 && (self.burst > 0 || self.rng.next() % 8 == 0),
        };
        let interrupt = match n.long {
            Some((at, count)) if at == self.progress => self.burst < count,
            _ => interrupt,
        };
        if interrupt {
            self.burst += 1;
            self.interrupts += 1;
            return Err(if self.rng.next() % 2 == 0 {
                io::Error::from_raw_os_error(4)
            } else {
                io::ErrorKind::Interrupted.into()
            });
        }
        self.burst = 0;
        if self.fired == 0 && self.plan.trigger == Trigger::Call(self.progress) {
            return self.fire();
        }
        let mut len = match n.short {
            0 => buf.len(),
            1 => 1,
            2 => n.k.max(1),
            _ => 1 + (self.rng.next() % 7) as usize,
        }
        .min(buf.len());
        if self.fired == 0 {
            if let Trigger::Byte(b) = self.plan.trigger {
                let room = b - self.got.len().min(b);
                if room == 0 {
                    return self.fire();
                }
                len = len.min(room);
            }
        }
        if len < buf.len() {
            self.shorts += 1;
        }
        self.progress += 1;
        self.got.extend_from_slice(&buf[..len]);
        if self.got.len() > self.limit {
            crate::engine::die("runaway-output");
        }
        Ok(len)
    }
    pub fn tally(&self, c: &mut Ctx) {
        c.count("fault.short_write", self.shorts);
        c.count("fault.eintr", self.interrupts);
        c.count("steps", self.calls);
        if self.fired > 0 {
            match self.plan.action {
                Action::Error(e) => c.count(e.name(), self.fired.min(1)),
                Action::Panic => c.count("fault.sink_panic", 1),
            }
        }
    }
}

impl io::Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::point(2);
        reenter();
        outside(|| self.accept(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        outside(|| {
            self.flushes += 1;
            if self.fired > 0 && self.plan.sticky {
                return self.fire().map(|_| ());
            }
            Ok(())
        })
    }
}

/// The same for unicode sinks, which take all of a string or none.
pub struct SimFmt {
    pub plan: Plan,
    pub got: String,
    pub limit: usize,
    pub calls: u64,
    pub fired: u64,
    pub after: u64,
}

impl SimFmt {
    pub fn new(plan: Plan) -> Self {
        SimFmt {
            plan,
            got: String::new(),
            limit: usize::MAX,
            calls: 0,
            fired: 0,
            after: 0,
        }
    }
    fn accept(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        let hit = match self.plan.trigger {
            Trigger::Never => false,
            Trigger::Byte(b) => !s.is_empty() && self.got.len() + s.len() > b,
            Trigger::Call(k) => self.calls > k,
        };
        if self.fired > 0 {
            self.after += 1;
        }
        if self.after > 50_000_000 {
            crate::engine::die("endless-writes-after-error");
        }
        if hit && (self.fired == 0 || self.plan.sticky) {
            self.fired += 1;
            if self.plan.action == Action::Panic {
                std::panic::panic_any("injected sink panic".to_string());
            }
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        if self.got.len() > self.limit {
            crate::engine::die("runaway-output");
        }
        Ok(())
    }
    pub fn tally(&self, c: &mut Ctx) {
        c.count("steps", self.calls);
        if self.fired > 0 {
            c.count(
                if self.plan.action == Action::Panic {
                    "fault.sink_panic"
                } else {
                    "fault.fmt_error"
                },
                1,
            );
        }
    }
}

impl std::fmt::Write for SimFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        sched::point(3);
        reenter();
        outside(|| self.accept(s))
    }
}

// ---- comparing ------------------------------------------------------------------------------

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 400 {
        let mut i = 200;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        let mut j = s.len() - 150;
        while !s.is_char_boundary(j) {
            j += 1;
        }
        format!("{:?} ...({} bytes)... {:?}", &s[..i], s.len(), &s[j..])
    } else {
        format!("{s:?}")
    }
}

/// Describes the first difference.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let cut = |x: &[u8]| {
        let a = i.saturating_sub(30).min(x.len());
        let b = (i + 50).min(x.len());
        String::from_utf8_lossy(&x[a..b]).into_owned()
    };
    format!(
        "differs at byte {i} (got {} bytes, want {}): got ..{:?}.. want ..{:?}..",
        got.len(),
        want.len(),
        cut(got),
        cut(want)
    )
}

pub fn same(class: &str, what: &str, got: &[u8], want: &[u8]) -> Result<(), Violation> {
    if got == want {
        Ok(())
    } else {
        crate::engine::fail(class, format!("{what}: {}", diff(got, want)))
    }
}

/// What was being written around a position: letters and digits folded, to tell write sites apart.
pub fn site(base: &[u8], at: usize) -> u64 {
    let a = at.saturating_sub(7).min(base.len());
    let b = (at + 4).min(base.len());
    let f: Vec<u8> = base[a..b]
        .iter()
        .map(|x| {
            if x.is_ascii_digit() {
                b'0'
            } else if *x >= 128 {
                b'u'
            } else {
                *x
            }
        })
        .collect();
    hash_bytes(&f)
}
