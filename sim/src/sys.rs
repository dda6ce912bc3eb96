//! Raw operating system access for the simulator, and the seams between the code under test and
//! the operating system: randomness, clock, environment and blocking all go through symbols that
//! this executable defines itself, so that std inside this process calls the simulator.
#![allow(clippy::missing_safety_doc)]

use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub type CInt = i32;

extern "C" {
    pub fn fork() -> CInt;
    pub fn waitpid(pid: CInt, status: *mut CInt, options: CInt) -> CInt;
    pub fn pipe(fds: *mut CInt) -> CInt;
    pub fn read(fd: CInt, buf: *mut c_void, n: usize) -> isize;
    pub fn write(fd: CInt, buf: *const c_void, n: usize) -> isize;
    pub fn close(fd: CInt) -> CInt;
    pub fn kill(pid: CInt, sig: CInt) -> CInt;
    pub fn _exit(code: CInt) -> !;
    pub fn mmap(addr: *mut c_void, len: usize, prot: CInt, flags: CInt, fd: CInt, off: i64) -> *mut c_void;
    pub fn poll(fds: *mut PollFd, n: u64, timeout: CInt) -> CInt;
    pub fn dup2(a: CInt, b: CInt) -> CInt;
    pub fn open(path: *const i8, flags: CInt, ...) -> CInt;
    pub fn prctl(op: CInt, ...) -> CInt;
    pub fn getppid() -> CInt;
    fn __errno_location() -> *mut CInt;
    static mut environ: *const *const u8;
}

#[repr(C)]
pub struct PollFd {
    pub fd: CInt,
    pub events: i16,
    pub revents: i16,
}

pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;

#[inline(never)]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn set_errno(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as CInt;
        -1
    } else {
        r
    }
}

pub fn futex_wait(word: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        raw_syscall(SYS_FUTEX, word as *const _ as i64, 128, i64::from(val), 0, 0, 0);
    }
}

pub fn futex_wake_all(word: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw_syscall(SYS_FUTEX, word as *const _ as i64, 129, i64::from(i32::MAX), 0, 0, 0);
    }
}

/// The real clock, for budgets and watchdogs only; never visible to the code under test.
pub fn wall() -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        raw_syscall(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0);
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

// ---- simulated environment ------------------------------------------------------------------

static RANDOM: AtomicU64 = AtomicU64::new(0x1234_5678);
static CLOCK_NS: AtomicU64 = AtomicU64::new(1_700_000_000_000_000_000);
static CLOCK_STEP: AtomicU64 = AtomicU64::new(1_000);
static WALL: AtomicI64 = AtomicI64::new(1_700_000_000);
static WALL_BACK: AtomicBool = AtomicBool::new(false);
static CLOCK_TICKS: AtomicI64 = AtomicI64::new(0);
static ENV_LIES: AtomicBool = AtomicBool::new(false);
static ENV_VALUE: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);
pub static GETENV_CALLS: AtomicU64 = AtomicU64::new(0);
pub static FILE_CALLS: AtomicU64 = AtomicU64::new(0);

/// One simulated environment. `Default` is the reference environment.
#[derive(Clone, Copy, Default, Debug)]
pub struct Env {
    pub random: u64,
    pub clock_ns: u64,
    pub clock_step: u64,
    /// The wall clock: seconds since 1970, and whether it runs backwards.
    pub wall: Option<(i64, bool)>,
    pub getenv: Option<u8>,
}

pub fn set_env(e: &Env) {
    RANDOM.store(e.random ^ 0x5DEE_CE66, SeqCst);
    CLOCK_NS.store(1_700_000_000_000_000_000u64.wrapping_add(e.clock_ns), SeqCst);
    CLOCK_STEP.store(e.clock_step + 1_000, SeqCst);
    let (wall, back) = e.wall.unwrap_or((1_700_000_000 + (e.clock_ns / 1_000_000_000) as i64, false));
    WALL.store(wall, SeqCst);
    WALL_BACK.store(back, SeqCst);
    CLOCK_TICKS.store(0, SeqCst);
    ENV_LIES.store(e.getenv.is_some(), SeqCst);
    ENV_VALUE.store(u64::from(e.getenv.unwrap_or(0)), SeqCst);
    unsafe { dress(e.getenv) };
}

// ---- arguments and environment as a whole ----------------------------------------------------

static ARGC: AtomicU64 = AtomicU64::new(0);
static ARGV: AtomicU64 = AtomicU64::new(0);

unsafe extern "C" fn note_args(argc: CInt, argv: *mut *const u8, _env: *mut *const u8) {
    ARGC.store(argc.max(0) as u64, SeqCst);
    ARGV.store(argv as u64, SeqCst);
}

#[used]
#[link_section = ".init_array"]
static NOTE_ARGS: unsafe extern "C" fn(CInt, *mut *const u8, *mut *const u8) = note_args;

/// The real variables while others are shown, else 0.
static VARS_ASIDE: AtomicU64 = AtomicU64::new(0);

fn real_args() -> &'static Vec<u64> {
    static R: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    R.get_or_init(|| unsafe {
        let argv = ARGV.load(SeqCst) as *const u64;
        (0..ARGC.load(SeqCst) as usize).map(|i| *argv.add(i)).collect()
    })
}

/// The lists of arguments and variables that `std::env::args` and `vars` go through.
unsafe fn dress(lie: Option<u8>) {
    let real = real_args();
    let argv = ARGV.load(SeqCst) as *mut u64;
    let Some(v) = lie.map(usize::from) else {
        for (i, a) in real.iter().enumerate() {
            *argv.add(i) = *a;
        }
        let aside = VARS_ASIDE.swap(0, SeqCst);
        if aside != 0 {
            environ = aside as *const *const u8;
        }
        return;
    };
    const ARGS: [&[u8]; 8] = [
        b"app\0", b"--minified\0", b"-v\0", b"--test-threads=1\0", b"/usr/bin/site\0", b"serve\0", b"--\0", b"--debug\0",
    ];
    const VARS: [&[u8]; 12] = [
        b"LANG=de_DE.UTF-8\0", b"LC_ALL=C\0", b"TZ=Asia/Kathmandu\0", b"HOME=/root\0", b"RUST_BACKTRACE=1\0", b"CI=true\0",
        b"NO_COLOR=\0", b"COLUMNS=40\0", b"SOURCE_DATE_EPOCH=0\0", b"TERM=dumb\0", b"=\0", b"X\0",
    ];
    static TABLES: std::sync::OnceLock<Vec<(Vec<u64>, Vec<u64>)>> = std::sync::OnceLock::new();
    let t = TABLES.get_or_init(|| {
        let own = crate::dict::c_words();
        (0..256usize)
            .map(|v| {
                let mut r = crate::tape::Rng::new(v as u64);
                let mut pick = |pool: &[&'static [u8]], bare: bool| {
                    let k = (r.next() >> 20) as usize;
                    if k % 2 == 0 && bare && !own.is_empty() {
                        return own[k / 2 % own.len()].as_ptr() as u64;
                    }
                    if k % 2 == 0 && !own.is_empty() {
                        // a name that the source mentions, with a value
                        let mut s = own[k / 2 % own.len()].as_bytes().to_vec();
                        s.extend_from_slice(if k % 4 == 0 { b"=1\0" } else { b"=\0" });
                        return Box::leak(s.into_boxed_slice()).as_ptr() as u64;
                    }
                    pool[k / 2 % pool.len()].as_ptr() as u64
                };
                let args = (0..real.len()).map(|_| pick(&ARGS, true)).collect();
                let mut vars: Vec<u64> = (0..v % 30).map(|_| pick(&VARS, false)).collect();
                vars.push(0);
                (args, vars)
            })
            .collect()
    });
    for (i, a) in t[v].0.iter().enumerate() {
        *argv.add(i) = *a;
    }
    if VARS_ASIDE.load(SeqCst) == 0 {
        VARS_ASIDE.store(environ as u64, SeqCst);
    }
    environ = t[v].1.as_ptr().cast();
}

thread_local! {
    /// True while code of the library under test runs on this thread.
    pub static INSIDE: Cell<bool> = const { Cell::new(false) };
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    RANDOM_CALLS.fetch_add(1, Relaxed);
    let mut r = crate::tape::Rng::new(RANDOM.fetch_add(0x9E37_79B9, SeqCst));
    for i in 0..len {
        *buf.add(i) = (r.next() >> 24) as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: CInt, ts: *mut i64) -> CInt {
    CLOCK_CALLS.fetch_add(1, Relaxed);
    let step = CLOCK_STEP.load(SeqCst);
    if clk == 0 || clk == 5 {
        // wall time may jump, and may be before 1970
        let n = CLOCK_TICKS.fetch_add(1, SeqCst) * (step as i64);
        let t = i128::from(WALL.load(SeqCst)) * 1_000_000_000 + i128::from(if WALL_BACK.load(SeqCst) { -n } else { n });
        *ts = t.div_euclid(1_000_000_000) as i64;
        *ts.add(1) = t.rem_euclid(1_000_000_000) as i64;
        return 0;
    }
    let t = CLOCK_NS.fetch_add(step, SeqCst);
    *ts = (t / 1_000_000_000) as i64;
    *ts.add(1) = (t % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if INSIDE.try_with(Cell::get).unwrap_or(false) {
        GETENV_CALLS.fetch_add(1, Relaxed);
        if ENV_LIES.load(SeqCst) {
            let n = std::ffi::CStr::from_ptr(name.cast()).to_bytes();
            let v = ENV_VALUE.load(SeqCst) as usize;
            const LOCALES: [&[u8]; 10] = [
                b"de_DE.UTF-8\0", b"tr_TR.UTF-8\0", b"C\0", b"POSIX\0", b"fr_FR.ISO-8859-1\0", b"ja_JP.eucJP\0",
                b"en_US.UTF-8\0", b"en_GB\0", b"de\0", b"sv_SE.UTF-8\0",
            ];
            const ZONES: [&[u8]; 4] = [b"UTC\0", b"Asia/Kathmandu\0", b":/etc/localtime\0", b"EST5EDT\0"];
            const PATHS: [&[u8]; 4] = [b"/\0", b"/nonexistent\0", b".\0", b"/tmp\0"];
            const SIZES: [&[u8]; 4] = [b"80\0", b"1\0", b"0\0", b"4294967296\0"];
            const TERMS: [&[u8]; 4] = [b"dumb\0", b"xterm-256color\0", b"\0", b"linux\0"];
            const OTHER: [&[u8]; 10] = [
                b"1\0", b"\0", b"0\0", b"true\0", b"false\0", b"yes\0", b"on\0", b"debug\0", b"full\0", b"2\0",
            ];
            let pool: &[&[u8]] = if n.starts_with(b"LC_") || n.starts_with(b"LANG") {
                &LOCALES
            } else if n == b"TZ" {
                &ZONES
            } else if n == b"TERM" || n == b"COLORTERM" {
                &TERMS
            } else if [&b"COLUMNS"[..], b"LINES", b"SOURCE_DATE_EPOCH"].contains(&n) || n.ends_with(b"WIDTH") {
                &SIZES
            } else if n.ends_with(b"PATH") || n.ends_with(b"DIR") || n.ends_with(b"HOME") || n == b"PWD" || n == b"HOME" {
                &PATHS
            } else {
                &OTHER
            };
            let own = crate::dict::c_words();
            if v >= 128 && !own.is_empty() {
                // a value that the source mentions
                return own[v % own.len()].as_ptr().cast();
            }
            return pool[v % pool.len()].as_ptr();
        }
        return std::ptr::null();
    }
    let len = (0..).take_while(|i| *name.add(*i) != 0).count();
    let mut p = match VARS_ASIDE.load(SeqCst) {
        0 => environ,
        aside => aside as *const *const u8,
    };
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        if (0..len).all(|i| *e.add(i) == *name.add(i)) && *e.add(len) == b'=' {
            return e.add(len + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

fn lied() -> Option<u64> {
    (INSIDE.try_with(Cell::get).unwrap_or(false) && ENV_LIES.load(SeqCst)).then(|| ENV_VALUE.load(SeqCst))
}

/// Process number, working directory, number of processors: other things a result could depend on.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> CInt {
    match lied() {
        Some(v) => [2, 255, 4_194_303, 32_768][v as usize % 4],
        None => raw_syscall(39, 0, 0, 0, 0, 0, 0) as CInt,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, len: usize) -> *mut u8 {
    if let Some(v) = lied() {
        let p: &[u8] = [&b"/\0"[..], b"/home/x\0", b"/d\xc3\xa9\0", b"/\xff\0"][v as usize % 4];
        if p.len() <= len {
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf, p.len());
            return buf;
        }
    }
    if set_errno(raw_syscall(79, buf as i64, len as i64, 0, 0, 0, 0)) < 0 {
        return std::ptr::null_mut();
    }
    buf
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: CInt, len: usize, mask: *mut u8) -> CInt {
    if let Some(v) = lied() {
        std::ptr::write_bytes(mask, 0, len);
        *mask = [1, 3, 0xff, 0x0f][v as usize % 4];
        return 0;
    }
    let n = set_errno(raw_syscall(204, i64::from(pid), len as i64, mask as i64, 0, 0, 0));
    if n < 0 {
        return -1;
    }
    std::ptr::write_bytes(mask.add(n as usize), 0, len - n as usize);
    0
}

// ---- files ---------------------------------------------------------------------------------

const ENOENT: i64 = -2;

enum File {
    /// Not the library's business: the real file system.
    Real,
    None,
    Some(Vec<u8>),
}

/// What the code under test finds at a path: nothing in the reference environment, and in others a
/// file, or not, depending on environment and path.
unsafe fn file(path: *const i8) -> File {
    if !INSIDE.try_with(Cell::get).unwrap_or(false) {
        return File::Real;
    }
    FILE_CALLS.fetch_add(1, Relaxed);
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    match lied() {
        Some(v) if (v + crate::tape::hash_bytes(p)) % 3 > 0 => {
            let own = crate::dict::c_words();
            File::Some(match v % 5 {
                0 => b"1\n".to_vec(),
                1 => b"true".to_vec(),
                2 => Vec::new(),
                3 if !own.is_empty() => own[v as usize % own.len()].to_bytes().to_vec(),
                _ => b"a = 1\n[b]\n".to_vec(),
            })
        }
        _ => File::None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: CInt, mode: u32) -> CInt {
    set_errno(match file(path) {
        File::Real => raw_syscall(2, path as i64, i64::from(flags), i64::from(mode), 0, 0, 0),
        File::None => ENOENT,
        File::Some(content) => {
            let fd = raw_syscall(319, b"f\0".as_ptr() as i64, 1, 0, 0, 0, 0);
            raw_syscall(18, fd, content.as_ptr() as i64, content.len() as i64, 0, 0, 0);
            fd
        }
    }) as CInt
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: CInt, path: *const i8, flags: CInt, mask: u32, out: *mut u8) -> CInt {
    let real = |path: *const i8| raw_syscall(332, i64::from(dir), path as i64, i64::from(flags), i64::from(mask), out as i64, 0);
    // an empty path stands for the descriptor
    set_errno(if path.is_null() || out.is_null() || *path == 0 {
        real(path)
    } else {
        match file(path) {
            File::Real => real(path),
            File::None => ENOENT,
            File::Some(content) => {
                std::ptr::write_bytes(out, 0, 256);
                out.cast::<u32>().write(0x7ff);
                out.add(16).cast::<u32>().write(1);
                out.add(28).cast::<u16>().write(0o100_644);
                out.add(40).cast::<u64>().write(content.len() as u64);
                0
            }
        }
    }) as CInt
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const i8, mode: CInt) -> CInt {
    set_errno(match file(path) {
        File::Real => raw_syscall(21, path as i64, i64::from(mode), 0, 0, 0, 0),
        File::None => ENOENT,
        File::Some(_) => 0,
    }) as CInt
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const i8, buf: *mut u8, n: usize) -> isize {
    set_errno(match file(path) {
        File::Real => raw_syscall(89, path as i64, buf as i64, n as i64, 0, 0, 0),
        File::None => ENOENT,
        File::Some(_) => {
            let v = lied().unwrap_or(0);
            let to: &[u8] = [&b"/usr/bin/jotdown"[..], b"/x", b"a.out", b"/home/x/target/debug/app"][v as usize % 4];
            let k = to.len().min(n);
            std::ptr::copy_nonoverlapping(to.as_ptr(), buf, k);
            k as i64
        }
    }) as isize
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: CInt) -> CInt {
    if INSIDE.try_with(Cell::get).unwrap_or(false) {
        return lied().map_or(0, |v| v as CInt & 1);
    }
    let mut t = [0u8; 64];
    i32::from(set_errno(raw_syscall(16, i64::from(fd), 0x5401, t.as_mut_ptr() as i64, 0, 0, 0)) == 0)
}

/// std's only route to blocking: futexes. A simulated thread must not block in the kernel while it
/// holds the scheduler's token, so a wait becomes a (permitted) spurious wake-up after letting the
/// scheduler run somebody else.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX {
        let op = b & 0x7f;
        if (op == 0 || op == 9) && crate::sched::on_simulated_thread() {
            let word = &*(a as *const std::sync::atomic::AtomicU32);
            if word.load(SeqCst) != c as u32 {
                return set_errno(-11);
            }
            crate::sched::blocked();
            return 0;
        }
    }
    set_errno(raw_syscall(n, a, b, c, d, e, f))
}
