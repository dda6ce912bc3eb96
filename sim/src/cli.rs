//! C09-C11: the real `jotdown` command, unmodified, on a simulated operating system (os/simos.c).

use crate::docgen::Size;
use crate::engine::{fail, Ctx, Res};
use crate::sys;
use crate::tape::{hash_bytes, mix, Tape};
use crate::world::*;
use jotdown::html::{Indentation, Renderer};
use jotdown::{Event, Parser, Render};
use std::cell::RefCell;
use std::ffi::OsString;
use std::fs;
use std::io::{Seek, SeekFrom};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

const WORDS: usize = 64;
const RECS: usize = 1000;

/// The plan's numbers, in the order simos.c reads them.
#[derive(Clone, Debug)]
pub struct OsPlan {
    r_mode: i64,
    r_k: i64,
    r_eintr: i64,
    r_seed: i64,
    r_fail_at: i64,
    r_err: i64,
    w_mode: i64,
    w_k: i64,
    w_eintr: i64,
    w_seed: i64,
    w_fail_at: i64,
    w_err: i64,
    w_sticky: i64,
    open_in_err: i64,
    open_out_err: i64,
    open_eintr: i64,
    hint: i64,
    hint_n: i64,
    pipe: i64,
    random: i64,
    clock: i64,
    clock_step: i64,
    alloc_fail: i64,
    alloc_sticky: i64,
    kill_at: i64,
    kill_torn: i64,
    msg_err: i64,
    /// Bytes of the same file that someone else has read before.
    lead: i64,
    /// Standard output has content already: 1 at an offset, 2 appending.
    old: i64,
}

/// None, one before each call, some, or very many before one call.
fn bursts(t: &mut Tape) -> i64 {
    match t.weighted(&[90, 30, 60, 1]) {
        3 => {
            let n = [20, 110, 300, 1100, 5000, 66000][t.weighted(&[6, 6, 6, 4, 2, 1])];
            crate::dict::int_or(t, n, 100_000).max(3) as i64
        }
        k => k as i64,
    }
}

/// How large pieces are.
fn piece(t: &mut Tape) -> i64 {
    let k = [1, 2, 3, 5, 7, 64, 1000, 4096, 8191][t.usize(9)];
    crate::dict::int_or(t, k, 1 << 22).max(1) as i64
}

impl OsPlan {
    fn clean() -> Self {
        OsPlan {
            r_mode: 0,
            r_k: 1,
            r_eintr: 0,
            r_seed: 0,
            r_fail_at: -1,
            r_err: 5,
            w_mode: 0,
            w_k: 1,
            w_eintr: 0,
            w_seed: 0,
            w_fail_at: -1,
            w_err: 28,
            w_sticky: 1,
            open_in_err: 0,
            open_out_err: 0,
            open_eintr: 0,
            hint: 0,
            hint_n: 0,
            pipe: 0,
            random: 0,
            clock: 0,
            clock_step: 0,
            alloc_fail: -1,
            alloc_sticky: 0,
            kill_at: -1,
            kill_torn: 0,
            msg_err: 0,
            lead: 0,
            old: 0,
        }
    }
    fn text(&self) -> String {
        let p = self;
        [
            p.r_mode, p.r_k, p.r_eintr, p.r_seed, p.r_fail_at, p.r_err, p.w_mode, p.w_k, p.w_eintr, p.w_seed,
            p.w_fail_at, p.w_err, p.w_sticky, p.open_in_err, p.open_out_err, p.open_eintr, p.hint, p.hint_n, p.pipe,
            p.random, p.clock, p.clock_step, p.alloc_fail, p.alloc_sticky, p.kill_at, p.kill_torn, p.msg_err, p.lead,
        ]
        .map(|x| x.to_string())
        .join(" ")
    }
    /// Behaviour that must make no difference.
    fn noise(&mut self, t: &mut Tape, size: usize) {
        // single bytes of a large file take too long
        let least = if size > 300_000 { 1000 } else { 64 };
        let big = size > 5000;
        let k = piece(t);
        let m = t.weighted(&[3, 2, 2, 2, 2]) as i64;
        self.r_mode = if big && (m == 1 || m == 3 || k < least) { 4 } else { m };
        self.r_k = k;
        self.r_eintr = bursts(t);
        self.r_seed = i64::from(t.draw(1 << 16));
        self.open_eintr = t.weighted(&[4, 1, 1]) as i64;
        // pipes, and sometimes terminals
        self.pipe = i64::from(t.draw(4)) + if t.chance(1, 4) { i64::from(t.draw(8)) << 2 } else { 0 };
        if t.chance(1, 4) {
            self.lead = [1, 5, 100, 9000][t.usize(4)];
        }
        self.old = t.weighted(&[3, 1, 1]) as i64;
        self.random = i64::from(t.draw(1 << 20));
        self.clock = i64::from(t.draw(1 << 30)) << 24;
        self.clock_step = i64::from(t.draw(1 << 20)) << 8;
        let k = piece(t);
        let m = t.weighted(&[3, 2, 2, 2, 2]) as i64;
        self.w_mode = if big && (m == 1 || m == 3 || k < least) { 4 } else { m };
        self.w_k = k;
        self.w_eintr = bursts(t);
        self.w_seed = i64::from(t.draw(1 << 16));
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Stdout,
    New,
    Existing,
    /// Onto the input: under the same name, a symbolic link, a hard link.
    Same,
    Symlink,
    Hardlink,
}

#[derive(Clone, Debug)]
struct Args {
    minified: bool,
    level: Option<usize>,
    string: Option<&'static str>,
    stdin: bool,
    out: Out,
    name: String,
    outname: String,
    style: u32,
    /// What else there is: environment variables and files.
    env: Option<u32>,
}

const NAMES: [&str; 10] = ["in.dj", "in put.dj", "-in.dj", "ü本.dj", "-", "--", "stdin", "in", "in.html", "a\n.md"];

/// The name of a file, sometimes a word of the source.
fn file_name(t: &mut Tape, usual: &str) -> String {
    if !t.chance(1, 3) {
        return usual.into();
    }
    let w = if t.chance(1, 2) { crate::dict::word(t) } else { "" };
    if w.len() > 200 || w.contains(['/', '\0']) || w.trim_matches('.').is_empty() {
        NAMES[t.usize(NAMES.len())].into()
    } else {
        w.into()
    }
}

impl Args {
    fn draw(t: &mut Tape) -> Self {
        let minified = t.chance(1, 4);
        let level = if t.chance(1, 3) { Some(level(t, 5)) } else { None };
        let string = if t.chance(1, 2) { Some(indent(t)) } else { None };
        let stdin = t.chance(1, 2);
        let out = match t.weighted(&[4, 2, 2, 1, 1, 1]) {
            0 => Out::Stdout,
            1 => Out::New,
            2 => Out::Existing,
            3 => Out::Same,
            4 => Out::Symlink,
            _ => Out::Hardlink,
        };
        let name = file_name(t, NAMES[0]);
        let mut outname = file_name(t, "out.html");
        if outname == name {
            outname = "out.html.1".into();
        }
        Args {
            minified,
            level,
            string,
            stdin,
            out,
            name,
            outname,
            style: t.draw(8),
            env: t.chance(1, 4).then(|| t.draw(1 << 16)),
        }
    }
    fn hash(&self) -> u64 {
        hash_bytes(format!("{self:?}").as_bytes())
    }
}

/// What the library makes of it.
fn expected(c: &mut Ctx, doc: &str, a: &Args) -> Option<Vec<u8>> {
    let r = guard(|| {
        let (mut depth, mut max) = (0i64, 0i64);
        for e in Parser::new(doc) {
            match e {
                Event::Start(..) => depth += 1,
                Event::End(..) => depth -= 1,
                _ => {}
            }
            max = max.max(depth);
        }
        // nesting costs stack and, indented, quadratically many bytes: sizes the simulated machine does not have
        if max > 600 {
            return Ok(None);
        }
        let mut r = if a.minified {
            Renderer::minified()
        } else {
            Renderer::indented(Indentation {
                string: a.string.unwrap_or("").to_string(),
                initial_level: a.level.unwrap_or(0),
            })
        };
        let mut s = String::new();
        r.push_events(Parser::new(doc), &mut s).map(|()| Some(s))
    });
    match r {
        Ok(Ok(None)) => {
            c.count("skipped.too_deep", 1);
            None
        }
        Ok(Ok(Some(s))) if s.len() > 1 << 24 => {
            c.count("skipped.too_much_output", 1);
            None
        }
        Ok(Ok(Some(s))) => Some(s.into_bytes()),
        _ => {
            c.count("skipped.baseline_fails", 1);
            None
        }
    }
}

/// One working directory per simulated machine.
struct Machine {
    dir: PathBuf,
    shm: *mut u64,
}

thread_local! {
    static MACHINE: RefCell<Option<Machine>> = const { RefCell::new(None) };
}

/// Where machines keep their files; the coordinator removes it.
pub fn base_dir() -> Option<String> {
    std::env::var("JDSIM_SCRATCH").ok()
}

fn with_machine<R>(slot: usize, f: impl FnOnce(&Machine) -> R) -> R {
    MACHINE.with(|m| {
        let mut m = m.borrow_mut();
        let m = m.get_or_insert_with(|| {
            let dir = Path::new(&base_dir().expect("JDSIM_SCRATCH")).join(format!("m{slot}"));
            let _ = fs::remove_dir_all(&dir);
            fs::create_dir_all(&dir).expect("scratch directory");
            let size = (WORDS + 4 * RECS) * 8;
            let f = fs::OpenOptions::new()
                .create(true)
                .read(true)
                .write(true)
                .truncate(true)
                .open(dir.join("shm"))
                .expect("shm");
            f.set_len(size as u64).expect("shm");
            use std::os::fd::AsRawFd;
            let p = unsafe { sys::mmap(std::ptr::null_mut(), size, 3, 1, f.as_raw_fd(), 0) };
            assert!(p as isize != -1);
            fs::create_dir_all(dir.join("w")).expect("scratch directory");
            Machine {
                dir,
                shm: p.cast(),
            }
        });
        f(m)
    })
}

#[derive(Clone, Default, Debug)]
struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    /// The output file before and after.
    before: Option<Vec<u8>>,
    after: Option<Vec<u8>>,
    w: Vec<u64>,
    trace: String,
}

macro_rules! words {
    ($($name:ident = $i:literal),* $(,)?) => {
        impl Ran { $(fn $name(&self) -> u64 { self.w[$i] })* }
    };
}
words!(
    ops = 0, delivered = 2, read_errors = 3, eintr_r = 5, short_r = 6, write_errors = 9,
    eintr_w = 10, short_w = 11, open_in_errors = 13, open_out_errors = 15,
    allocs = 18, alloc_failed = 19, killed = 20, random_reads = 21, runaway = 23, hash = 24, hints = 25,
    eintr_open = 26, loaded = 30, msg_errors = 32,
);

static CHILD: AtomicI32 = AtomicI32::new(0);

fn run(c: &mut Ctx, input: Option<&[u8]>, a: &Args, plan: &OsPlan) -> Ran {
    let slot = c.slot;
    let want_trace = c.trace;
    let r = with_machine(slot, |m| {
        let w = m.dir.join("w");
        for e in fs::read_dir(&w).expect("scratch").flatten() {
            let _ = fs::remove_file(e.path());
        }
        unsafe { std::ptr::write_bytes(m.shm, 0, WORDS) };
        let name = &*a.name;
        let inp = w.join(name);
        let lead = if a.stdin { plan.lead as usize } else { 0 };
        if let Some(b) = input {
            let mut all: Vec<u8> = b"# before\n\n".iter().copied().cycle().take(lead).collect();
            all.extend_from_slice(b);
            fs::write(&inp, all).expect("input");
        }
        let outname = match a.out {
            Out::Stdout => None,
            Out::New | Out::Existing => Some(&*a.outname),
            Out::Same if a.stdin => Some(name),
            Out::Same => Some(name),
            Out::Symlink | Out::Hardlink => Some(&*a.outname),
        };
        let out = outname.map(|n| w.join(n));
        match a.out {
            Out::Existing => {
                let old: String = (0..1 + a.style as usize * 700).map(|i| format!("old line {i}\n")).collect();
                fs::write(out.as_ref().unwrap(), old).expect("old output");
            }
            Out::Symlink => std::os::unix::fs::symlink(name, out.as_ref().unwrap()).expect("symlink"),
            Out::Hardlink if input.is_some() => fs::hard_link(&inp, out.as_ref().unwrap()).expect("link"),
            _ => {}
        }
        let before = out.as_ref().and_then(|o| fs::read(o).ok());
        let bin = std::env::var_os("JDSIM_CLI").expect("JDSIM_CLI");
        let mut cmd = Command::new(bin);
        cmd.current_dir(&w)
            .env_clear()
            .env("LD_PRELOAD", std::env::var_os("JDSIM_OS").expect("JDSIM_OS"))
            .env("JDSIM_SHM", m.dir.join("shm"))
            .env("JDSIM_PLAN", plan.text());
        if let Some(e) = a.env {
            let e = e as usize;
            let own = crate::dict::c_words();
            let vars: [(&str, &str); 8] = [
                ("LANG", "tr_TR.UTF-8"),
                ("LC_ALL", "C"),
                ("TERM", "dumb"),
                ("NO_COLOR", "1"),
                ("COLUMNS", "20"),
                ("RUST_BACKTRACE", "full"),
                ("HOME", "/nonexistent"),
                ("RUST_LOG", "trace"),
            ];
            for (i, (k, v)) in vars.iter().enumerate() {
                if e >> i & 1 == 1 {
                    cmd.env(k, v);
                }
            }
            let word = |i: usize| own[i % own.len()].to_str().unwrap_or("");
            if !own.is_empty() {
                let (k, v) = (word(e >> 4), word(e));
                if !k.is_empty() && k.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') && !k.starts_with("JDSIM") && !k.starts_with("LD_") {
                    cmd.env(k, if e & 1 == 0 { v } else { "1" });
                }
                let f = word(e >> 5);
                if f != name && f != a.outname && !f.contains('/') && f.trim_matches('.') != "" {
                    let _ = fs::write(w.join(f), word(e >> 2));
                }
            }
        }
        let absolute = a.style & 1 == 1;
        let full = |n: &str| -> OsString {
            if absolute {
                w.join(n).into_os_string()
            } else {
                n.into()
            }
        };
        let mut args: Vec<OsString> = Vec::new();
        if a.minified {
            args.push("--minified".into());
        }
        if let Some(l) = a.level {
            args.push(format!("--start-indent={l}").into());
        }
        if let Some(s) = a.string {
            args.push(format!("--indent-string={s}").into());
        }
        if let Some(n) = outname {
            let n = full(n);
            cmd.env("JDSIM_OUT", &n);
            if a.style & 2 == 0 {
                args.push("-o".into());
                args.push(if n.to_string_lossy().starts_with('-') {
                    let mut x = OsString::from("./");
                    x.push(n);
                    x
                } else {
                    n
                });
            } else {
                let mut x = OsString::from("--output=");
                x.push(n);
                args.push(x);
            }
        }
        if a.stdin {
            cmd.stdin(match fs::File::open(&inp) {
                Ok(mut f) => {
                    f.seek(SeekFrom::Start(lead as u64)).expect("seek");
                    Stdio::from(f)
                }
                Err(_) => Stdio::null(),
            });
        } else {
            cmd.env("JDSIM_IN", full(name));
            if a.style & 4 != 0 {
                // the input may come before the options
                args.rotate_left(0);
            }
            args.push("--".into());
            args.push(full(name));
            cmd.stdin(Stdio::null());
        }
        cmd.args(&args);
        let so = m.dir.join("stdout");
        let se = m.dir.join("stderr");
        let old: &[u8] = if plan.old == 0 { b"" } else { b"<p>before</p>\n" };
        fs::write(&so, old).expect("stdout");
        let mut f = if plan.old == 2 { fs::OpenOptions::new().append(true).open(&so) } else { fs::OpenOptions::new().write(true).open(&so) }.expect("stdout");
        if plan.old == 1 {
            f.seek(SeekFrom::End(0)).expect("seek");
        }
        cmd.stdout(f);
        cmd.stderr(fs::File::create(&se).expect("stderr"));
        let mut p = cmd.spawn().expect("cannot start the command");
        CHILD.store(p.id() as i32, SeqCst);
        let st = p.wait().expect("wait");
        let words: Vec<u64> = (0..WORDS).map(|i| unsafe { *m.shm.add(i) }).collect();
        let mut trace = String::new();
        if want_trace {
            let n = (words[29] as usize).min(RECS);
            for i in 0..n.min(60) {
                let r: Vec<i64> = (0..4).map(|k| unsafe { *m.shm.add(WORDS + 4 * i + k) as i64 }).collect();
                let k = match r[0] {
                    1 => "read",
                    2 => "write",
                    3 => "open-input",
                    4 => "open-output",
                    5 => "truncate",
                    _ => "KILL",
                };
                trace.push_str(&format!(" {k}({})={}", r[2], r[3]));
            }
            if words[29] > 60 {
                trace.push_str(&format!(" ... {} calls", words[29]));
            }
        }
        let mut stdout = fs::read(&so).expect("stdout");
        if stdout.starts_with(old) {
            stdout.drain(..old.len());
        } else {
            stdout.splice(0..0, *b"(what was there before is gone) ");
        }
        Ran {
            code: st.code(),
            signal: st.signal(),
            stdout,
            stderr: fs::read(&se).expect("stderr"),
            before,
            after: out.as_ref().and_then(|o| fs::read(o).ok()),
            w: words,
            trace: format!("jotdown {args:?}:{trace}"),
        }
    });
    assert!(r.loaded() == 1 || r.code.is_none(), "simos.so was not loaded: {r:?}");
    c.note(|| {
        format!(
            "{} -> {}, stdout {} bytes, file {:?} -> {:?} bytes, stderr {:?}",
            r.trace,
            r.signal.map_or(format!("exit {:?}", r.code), |s| format!("signal {s}")),
            r.stdout.len(),
            r.before.as_ref().map(Vec::len),
            r.after.as_ref().map(Vec::len),
            String::from_utf8_lossy(&r.stderr).chars().take(120).collect::<String>()
        )
    });
    c.count("processes", 1);
    c.count("steps", r.ops());
    c.count("fault.read_eintr", r.eintr_r());
    c.count("fault.short_read", r.short_r());
    c.count("fault.write_eintr", r.eintr_w());
    c.count("fault.short_write", r.short_w());
    c.count("fault.open_eintr", r.eintr_open());
    c.count("fault.read_error", r.read_errors());
    c.count("fault.write_error", r.write_errors().min(1));
    c.count("fault.open_input_error", r.open_in_errors());
    c.count("fault.open_output_error", r.open_out_errors());
    c.count("fault.allocation_failure", r.alloc_failed().min(1));
    c.count("fault.kill", r.killed());
    if plan.hint != 0 {
        c.count("fault.wrong_size_hint", r.hints().min(1));
    }
    c.count("random_reads", r.random_reads());
    c.count("fault.input_offset", u64::from(a.stdin && plan.lead > 0));
    c.count("fault.output_offset", u64::from(plan.old > 0));
    c.count("fault.pipe_or_terminal", u64::from(plan.pipe > 0));
    c.event(r.hash());
    c.event_bytes(&r.stdout);
    c.event_bytes(r.after.as_deref().unwrap_or(b"-"));
    c.event((r.code.unwrap_or(-1) + 1000) as u64);
    r
}

impl Ran {
    fn delivered_output<'a>(&'a self, a: &Args) -> &'a [u8] {
        if a.out == Out::Stdout {
            &self.stdout
        } else {
            self.after.as_deref().unwrap_or(b"")
        }
    }
    fn faulted(&self) -> bool {
        self.write_errors() + self.read_errors() + self.open_in_errors() + self.open_out_errors() + self.alloc_failed() + self.killed() > 0
    }
    fn error_returned(&self) -> bool {
        self.write_errors() + self.read_errors() + self.open_in_errors() + self.open_out_errors() > 0
    }
    fn untouched(&self) -> bool {
        self.stdout.is_empty() && self.before == self.after
    }
}

/// A document as a file might contain it.
/// Larger than every buffer and every reasonable limit, and about as large as an exact one.
fn huge(t: &mut Tape) -> String {
    let n = 1usize << (16 + t.weighted(&[4, 4, 4, 4, 3, 2, 1]));
    let n = crate::dict::int_or(t, n, 1 << 22).max(100);
    let n = [n, n - 1, n + 1, n + t.usize(100)][t.usize(4)];
    let long = t.chance(1, 8);
    let mut s = String::with_capacity(n + 100);
    let mut i = 0;
    while s.len() < n {
        s.push_str(&format!("{i} is the number of a paragraph with a *few* words in it"));
        s.push_str(if long { " " } else { "\n\n" });
        i += 1;
    }
    s.truncate(n);
    s
}

fn cli_doc(t: &mut Tape) -> String {
    if t.chance(1, if crate::dict::fresh() { 40 } else { 150 }) {
        return huge(t);
    }
    let mut s = match t.weighted(&[6, 4, 3, 1]) {
        0 => small_doc(t),
        1 => gen().doc_sized(t, Size::Tiny),
        2 => gen().doc(t),
        _ => String::new(),
    };
    if t.chance(1, 8) {
        // long enough for every buffer in between to fill up
        let target = [8100, 8192, 9000, 20000, 70000][t.usize(5)];
        let unit = if s.is_empty() { "é*x* ".to_string() } else { s.clone() };
        while s.len() < target && s.len() < 200_000 {
            s.push_str(&unit);
            s.push_str("\n\n");
        }
    }
    if t.chance(1, 10) {
        s = s.replace('\n', "\r\n");
    }
    if t.chance(1, 16) {
        s.insert(0, '\u{feff}');
    }
    if t.chance(1, 16) {
        let mut i = t.usize(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.insert(i, ['\0', '\u{1b}', '\r', '\u{2028}', '\u{fffd}'][t.usize(5)]);
    }
    match t.weighted(&[4, 2, 1, 1]) {
        1 => s.truncate(s.trim_end_matches('\n').len()),
        2 => s.push_str("\n\n \n"),
        3 => s.push_str(" é\u{10ffff}"),
        _ => {}
    }
    s
}

const W_ERRS: [i64; 9] = [28, 5, 32, 122, 11, 27, 110, 104, 22];
const R_ERRS: [i64; 7] = [5, 11, 21, 22, 104, 116, 110];

/// Mostly likely ones, sometimes any that std does not treat specially: EINTR is repeated, and EBADF on
/// standard streams is taken for success.
fn errno(t: &mut Tape, likely: &[i64]) -> i64 {
    if t.chance(3, 4) {
        return *t.pick(likely);
    }
    let n = 1 + i64::from(t.draw(133));
    if n == 4 || n == 9 {
        5
    } else {
        n
    }
}

/// Or the device accepts no bytes, without an error.
fn write_error(t: &mut Tape) -> i64 {
    if t.chance(1, 12) {
        0
    } else {
        errno(t, &W_ERRS)
    }
}

const OPEN_OUT: [i64; 7] = [13, 2, 28, 30, 24, 21, 26];
const OPEN_IN: [i64; 5] = [13, 2, 24, 5, 40];

/// What must hold for any valid input.
fn delivered(c: &mut Ctx, what: &str, r: &Ran, a: &Args, want: &[u8]) -> Res {
    if r.runaway() > 0 {
        return fail("endless-calls", format!("{what}: millions of system calls"));
    }
    let got = r.delivered_output(a);
    if r.code == Some(0) {
        if r.error_returned() {
            return fail("success-despite-error", format!("{what}: exit status 0 although a call failed; {} of {} bytes delivered", got.len(), want.len()));
        }
        same("success-without-all-output", what, got, want)?;
        if a.out != Out::Stdout && !r.stdout.is_empty() {
            return fail("output-in-two-places", format!("{what}: {} bytes on standard output as well", r.stdout.len()));
        }
        return Ok(());
    }
    if !r.faulted() {
        return fail(
            "failure-without-fault",
            format!("{what}: exit {:?} signal {:?}: {}", r.code, r.signal, String::from_utf8_lossy(&r.stderr)),
        );
    }
    c.nontrivial = true;
    if let Some(s) = r.signal {
        if !(r.killed() > 0 && s == 9 || r.alloc_failed() > 0 && s == 6) {
            return fail("crash", format!("{what}: signal {s}"));
        }
    } else if r.stderr.is_empty() && r.msg_errors() == 0 {
        return fail("silent-failure", format!("{what}: exit {:?} without a message", r.code));
    }
    let old = a.out != Out::Stdout && r.before == r.after;
    if !old && !want.starts_with(got) {
        return fail("not-a-prefix", format!("{what}: {}", diff(got, want)));
    }
    Ok(())
}

pub fn c09(c: &mut Ctx) -> Res {
    let doc = cli_doc(&mut c.tape);
    let a = Args::draw(&mut c.tape);
    c.note(|| format!("document {}", show(doc.as_bytes())));
    c.note(|| format!("options {a:?}"));
    let Some(want) = expected(c, &doc, &a) else { return Ok(()) };
    c.case = mix(hash_bytes(doc.as_bytes()), a.hash());
    let size = doc.len() + want.len();
    let mut plan = OsPlan::clean();
    if c.tape.chance(3, 4) {
        plan.noise(&mut c.tape, size);
    }
    // without faults first
    let r = run(c, Some(doc.as_bytes()), &a, &plan);
    delivered(c, "no fault", &r, &a, &want)?;
    let (ops, allocs) = (r.ops(), r.allocs());
    let mut i = 0;
    while c.tape.more(i, 1, 5, 4, 5) {
        i += 1;
        let mut p = plan.clone();
        let kind = c.tape.weighted(&[6, 2, 1, 2, 3, 1]);
        let what;
        match kind {
            0 => {
                p.w_fail_at = if c.tape.chance(1, 4) {
                    // at the very end
                    want.len().saturating_sub(c.tape.usize(4)) as i64
                } else {
                    c.tape.usize(want.len() + 1) as i64
                };
                p.w_err = write_error(&mut c.tape);
                p.w_sticky = i64::from(!c.tape.chance(1, 3));
                what = format!("writing fails at byte {} with errno {} (again and again: {})", p.w_fail_at, p.w_err, p.w_sticky);
            }
            1 => {
                p.w_fail_at = 0;
                p.w_err = write_error(&mut c.tape);
                p.w_sticky = i64::from(!c.tape.chance(1, 3));
                what = format!("the first write fails with errno {}", p.w_err);
            }
            2 => {
                p.open_out_err = errno(&mut c.tape, &OPEN_OUT);
                what = format!("opening the output fails with errno {}", p.open_out_err);
            }
            3 => {
                p.alloc_fail = c.tape.usize(allocs as usize + 1) as i64;
                p.alloc_sticky = i64::from(c.tape.chance(1, 2));
                what = format!("allocation {} fails", p.alloc_fail);
            }
            4 => {
                p.kill_at = c.tape.usize(ops as usize + 1) as i64;
                p.kill_torn = i64::from(c.tape.chance(1, 2));
                what = format!("killed at call {} of {ops} (torn: {})", p.kill_at, p.kill_torn);
            }
            _ => {
                // several at once
                p.w_fail_at = c.tape.usize(want.len() + 1) as i64;
                p.w_err = write_error(&mut c.tape);
                p.w_sticky = 0;
                p.kill_at = c.tape.usize(ops as usize + 3) as i64;
                p.kill_torn = i64::from(c.tape.chance(1, 2));
                what = format!("writing fails once at byte {} with errno {}, killed at call {}", p.w_fail_at, p.w_err, p.kill_at);
            }
        }
        if c.tape.chance(1, 8) {
            p.msg_err = [32, 28, 5, 11, 104][c.tape.usize(5)];
            c.note(|| format!("writing messages fails with errno {}", p.msg_err));
        }
        c.note(|| what.clone());
        let r = run(c, Some(doc.as_bytes()), &a, &p);
        c.count("fault.message_lost", u64::from(r.msg_errors() > 0));
        c.case = mix(c.case, hash_bytes(p.text().as_bytes()));
        let kept = r.delivered_output(&a).len();
        c.state(mix(
            mix(kind as u64, p.w_err as u64 * 4 + p.w_sticky as u64),
            mix(site(&want, kept.min(want.len())), u64::from(a.out == Out::Stdout) + 2 * u64::from(r.killed() > 0)),
        ));
        delivered(c, &what, &r, &a, &want)?;
    }
    // small documents: a crash at every single call
    if c.tape.chance(1, 6) && ops < 60 {
        c.count("crash_sweeps", 1);
        for k in 0..ops {
            for torn in 0..2 {
                let mut p = plan.clone();
                p.kill_at = k as i64;
                p.kill_torn = torn;
                let r = run(c, Some(doc.as_bytes()), &a, &p);
                delivered(c, &format!("killed at call {k} (torn: {torn})"), &r, &a, &want)?;
            }
        }
    }
    Ok(())
}

/// Bytes that are not UTF-8, in all the ways there are.
fn corrupt(t: &mut Tape, b: &mut Vec<u8>) {
    const BAD: [&[u8]; 12] = [
        b"\x80",
        b"\xff",
        b"\xc3",
        b"\xe2\x82",
        b"\xf0\x9f\x92",
        b"\xc0\xaf",
        b"\xed\xa0\x80",
        b"\xf4\x90\x80\x80",
        b"\xfe\xff",
        b"\xc3(",
        b"\xe9 ",
        b"\xff\xfe",
    ];
    let x = BAD[t.usize(BAD.len())];
    let at = match t.weighted(&[2, 3, 1]) {
        0 => b.len(),
        1 => t.usize(b.len() + 1),
        _ => 0,
    };
    // (in the middle of a character is just as well)
    b.splice(at..at, x.iter().copied());
}

pub fn c10(c: &mut Ctx) -> Res {
    let doc = cli_doc(&mut c.tape);
    let mut a = Args::draw(&mut c.tape);
    if a.out == Out::Stdout && c.tape.chance(3, 4) {
        a.out = [Out::Existing, Out::New, Out::Same, Out::Symlink, Out::Hardlink][c.tape.usize(5)].clone();
    }
    let mut input = doc.clone().into_bytes();
    c.note(|| format!("options {a:?}"));
    if expected(c, &doc, &a).is_none() {
        return Ok(());
    }
    let mut plan = OsPlan::clean();
    let size = 2 * doc.len();
    if c.tape.chance(3, 4) {
        plan.noise(&mut c.tape, size);
    }
    let mut i = 0;
    while c.tape.more(i, 1, 5, 4, 5) {
        i += 1;
        let mut p = plan.clone();
        let kind = c.tape.weighted(&[4, 4, 1, 4, 1, 1, 1]);
        let mut data: Option<&[u8]> = Some(&input);
        let mut bytes;
        let what;
        match kind {
            0 => {
                bytes = input.clone();
                let mut k = 0;
                while c.tape.more(k, 1, 3, 1, 4) {
                    k += 1;
                    corrupt(&mut c.tape, &mut bytes);
                }
                // what was inserted may have completed a character
                if std::str::from_utf8(&bytes).is_ok() {
                    bytes.push(0xff);
                }
                c.count("fault.invalid_utf8", 1);
                what = format!("input is not UTF-8: {}", show(&bytes));
                data = Some(&bytes);
            }
            1 => {
                p.r_fail_at = if c.tape.chance(1, 5) {
                    input.len() as i64
                } else {
                    c.tape.usize(input.len() + 1) as i64
                };
                p.r_err = errno(&mut c.tape, &R_ERRS);
                what = format!("reading fails at byte {} with errno {}", p.r_fail_at, p.r_err);
            }
            2 => {
                p.open_in_err = errno(&mut c.tape, &OPEN_IN);
                what = format!("opening the input fails with errno {}", p.open_in_err);
            }
            3 => {
                // during input: the calls before that are few
                let span = [4, 20, 200][c.tape.usize(3)];
                p.kill_at = c.tape.usize(span) as i64;
                what = format!("killed at call {}", p.kill_at);
            }
            4 => {
                a.stdin = false;
                data = None;
                what = "input does not exist".to_string();
            }
            5 => {
                p.alloc_fail = c.tape.usize(300) as i64;
                p.alloc_sticky = i64::from(c.tape.chance(1, 2));
                what = format!("allocation {} fails", p.alloc_fail);
            }
            _ => {
                // a fault-free run: a file may be rendered onto itself
                what = "no fault".to_string();
            }
        }
        c.note(|| what.clone());
        let r = run(c, data, &a, &p);
        c.case = mix(c.case, hash_bytes(p.text().as_bytes()) ^ hash_bytes(data.unwrap_or(b"-")) ^ a.hash());
        let bad_data = data.is_none_or(|d| std::str::from_utf8(d).is_err());
        let unread = r.delivered() < data.map_or(0, <[u8]>::len) as u64;
        let read_failed = r.read_errors() + r.open_in_errors() > 0 || bad_data;
        c.state(mix(
            mix(kind as u64, hash_bytes(format!("{:?}{}", a.out, a.stdin).as_bytes())),
            mix(64 - r.delivered().leading_zeros() as u64, r.open_in_errors() + r.read_errors() * 3 + r.killed() * 2),
        ));
        if r.runaway() > 0 {
            return fail("endless-calls", what);
        }
        if read_failed {
            c.nontrivial = true;
            if r.code == Some(0) {
                return fail("success-without-input", format!("{what}: exit status 0"));
            }
            if r.killed() == 0 && r.signal.is_none() && r.stderr.is_empty() {
                return fail("silent-failure", format!("{what}: exit {:?} without a message", r.code));
            }
        }
        let stopped_early = (r.killed() > 0 || r.alloc_failed() > 0) && unread && r.code != Some(0);
        if stopped_early {
            c.nontrivial = true;
        }
        if (read_failed || stopped_early) && !r.untouched() {
            return fail(
                "output-touched",
                format!(
                    "{what}: output was {:?} bytes, is now {:?} bytes, standard output has {} bytes",
                    r.before.as_ref().map(Vec::len),
                    r.after.as_ref().map(Vec::len),
                    r.stdout.len()
                ),
            );
        }
        if r.code == Some(0) {
            if r.delivered() < input.len() as u64 {
                return fail("success-without-input", format!("{what}: only {} of {} bytes were read", r.delivered(), input.len()));
            }
            let Ok(d) = std::str::from_utf8(&input) else { unreachable!() };
            let Some(want) = expected(c, d, &a) else { return Ok(()) };
            same("wrong-output", &what, r.delivered_output(&a), &want)?;
            if kind == 6 && matches!(a.out, Out::Same | Out::Symlink | Out::Hardlink) {
                c.count("rendered_onto_itself", 1);
                c.nontrivial = true;
            }
        } else if !read_failed && !r.faulted() {
            return fail("failure-without-fault", format!("{what}: {:?} {}", r.code, String::from_utf8_lossy(&r.stderr)));
        }
        if c.tape.chance(1, 5) {
            input = small_doc(&mut c.tape).into_bytes();
        }
    }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> Res {
    let doc = cli_doc(&mut c.tape);
    c.note(|| format!("document {}", show(doc.as_bytes())));
    c.case = hash_bytes(doc.as_bytes());
    let mut i = 0;
    while c.tape.more(i, 1, 5, 4, 5) {
        i += 1;
        let a = Args::draw(&mut c.tape);
        let Some(want) = expected(c, &doc, &a) else { return Ok(()) };
        let mut p = OsPlan::clean();
        p.noise(&mut c.tape, doc.len() + want.len());
        if c.tape.chance(1, 2) {
            p.w_mode = 0;
            p.w_eintr = 0;
        }
        p.hint = c.tape.weighted(&[3, 2, 2, 2, 1]) as i64;
        p.hint_n = [1, 7, 31, 32, 33, 64, 1000, 8192, 1 << 20][c.tape.usize(9)];
        c.case = mix(c.case, hash_bytes(p.text().as_bytes()) ^ a.hash());
        let r = run(c, Some(doc.as_bytes()), &a, &p);
        if r.short_r() + r.eintr_r() > 0 || p.hint != 0 {
            c.nontrivial = true;
        }
        c.state(mix(
            mix((p.r_mode * 8 + p.r_eintr) as u64, (p.hint * 2 + p.pipe) as u64),
            mix(hash_bytes(format!("{:?} {} {:?} {:?}", a.out, a.stdin, a.level, a.string).as_bytes()), 64 - u64::from(doc.len().leading_zeros())),
        ));
        if r.code != Some(0) {
            return fail(
                "failure-without-fault",
                format!("exit {:?} signal {:?}: {}", r.code, r.signal, String::from_utf8_lossy(&r.stderr)),
            );
        }
        same("wrong-output", "delivered bytes against the library's", r.delivered_output(&a), &want)?;
        if a.out != Out::Stdout && !r.stdout.is_empty() {
            return fail("output-in-two-places", format!("{} bytes on standard output as well", r.stdout.len()));
        }
    }
    Ok(())
}
