//! The same harness linked with the library's `deterministic` feature (tree maps instead of hash
//! maps), asked over a pipe for what it makes of a document.

use crate::sys;
use crate::world::Cfg;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

static PATH: Mutex<Option<String>> = Mutex::new(None);
static PROC: Mutex<Option<Child>> = Mutex::new(None);

pub struct Twin;

pub type Answer = Result<(Vec<String>, String), String>;

pub fn configure(path: &str) {
    *PATH.lock().unwrap() = Some(path.to_string());
}

pub fn get() -> Option<Twin> {
    PATH.lock().unwrap().as_ref().map(|_| Twin)
}

fn put(o: &mut Vec<u8>, s: &str) {
    o.extend_from_slice(&(s.len() as u32).to_le_bytes());
    o.extend_from_slice(s.as_bytes());
}

fn take(r: &mut impl Read) -> Option<String> {
    let mut h = [0u8; 4];
    r.read_exact(&mut h).ok()?;
    let mut v = vec![0u8; u32::from_le_bytes(h) as usize];
    r.read_exact(&mut v).ok()?;
    String::from_utf8(v).ok()
}

impl Twin {
    /// `None` if the other process died of it.
    pub fn ask(&self, doc: &str, cfg: &Cfg) -> Option<Answer> {
        let mut g = PROC.lock().unwrap();
        if g.is_none() {
            let path = PATH.lock().unwrap().clone().unwrap();
            let c = Command::new(&path)
                .arg("serve")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| panic!("cannot start {path}: {e}"));
            *g = Some(c);
        }
        let c = g.as_mut().unwrap();
        let mut q = Vec::new();
        put(&mut q, doc);
        put(&mut q, cfg.string);
        put(&mut q, &format!("{} {}", cfg.kind, cfg.level));
        let r = (|| {
            c.stdin.as_mut()?.write_all(&q).ok()?;
            let o = c.stdout.as_mut()?;
            let ok = take(o)?;
            if ok != "ok" {
                return Some(Err(ok));
            }
            let n: usize = take(o)?.parse().ok()?;
            let mut ev = Vec::with_capacity(n);
            for _ in 0..n {
                ev.push(take(o)?);
            }
            Some(Ok((ev, take(o)?)))
        })();
        if r.is_none() {
            let _ = c.kill();
            let _ = c.wait();
            *g = None;
        }
        r
    }
}

/// The other side.
pub fn serve() -> i32 {
    unsafe { sys::prctl(1, 9) };
    let mut i = std::io::stdin().lock();
    loop {
        let (Some(doc), Some(string), Some(rest)) = (take(&mut i), take(&mut i), take(&mut i)) else {
            return 0;
        };
        let mut f = rest.split(' ').map(|x| x.parse::<usize>().unwrap_or(0));
        let cfg = Cfg {
            kind: f.next().unwrap_or(0) as u32,
            level: f.next().unwrap_or(0),
            string: String::leak(string),
        };
        crate::alloc::RUN_ALLOCS.store(0, std::sync::atomic::Ordering::SeqCst);
        let mut o = Vec::new();
        match crate::scen_lib::fingerprint(&doc, &cfg) {
            Ok((ev, s)) => {
                put(&mut o, "ok");
                put(&mut o, &ev.len().to_string());
                for e in &ev {
                    put(&mut o, e);
                }
                put(&mut o, &s);
            }
            Err(p) => put(&mut o, &format!("panic {p}")),
        }
        if !crate::engine::write_all_fd(1, &o) {
            return 0;
        }
    }
}
