//! A server process, forked before any library code ran, that forks a pristine process for each
//! request and returns what a session does when it is alone there.

use crate::sys;
use std::sync::atomic::{AtomicI32, Ordering::*};

static REQ: AtomicI32 = AtomicI32::new(-1);
static RESP: AtomicI32 = AtomicI32::new(-1);
static PID: AtomicI32 = AtomicI32::new(-1);

fn read_exact(fd: i32, buf: &mut [u8]) -> bool {
    let mut n = 0;
    while n < buf.len() {
        let r = unsafe { sys::read(fd, buf[n..].as_mut_ptr().cast(), buf.len() - n) };
        if r <= 0 {
            return false;
        }
        n += r as usize;
    }
    true
}

pub fn start() {
    let mut a = [0i32; 2];
    let mut b = [0i32; 2];
    unsafe {
        sys::pipe(a.as_mut_ptr());
        sys::pipe(b.as_mut_ptr());
        let parent = std::process::id() as i32;
        let pid = sys::fork();
        assert!(pid >= 0);
        if pid == 0 {
            sys::prctl(1, 9);
            if sys::getppid() != parent {
                sys::_exit(0);
            }
            crate::engine::set_out(-1);
            sys::close(a[1]);
            sys::close(b[0]);
            serve(a[0], b[1]);
        }
        sys::close(a[0]);
        sys::close(b[1]);
        PID.store(pid, SeqCst);
    }
    REQ.store(a[1], SeqCst);
    RESP.store(b[0], SeqCst);
}

pub fn stop() {
    let p = PID.swap(-1, SeqCst);
    if p > 0 {
        unsafe {
            sys::close(REQ.load(SeqCst));
            let mut st = 0;
            sys::waitpid(p, &mut st, 0);
        }
    }
}

fn serve(req: i32, resp: i32) -> ! {
    loop {
        let mut h = [0u8; 4];
        if !read_exact(req, &mut h) {
            unsafe { sys::_exit(0) };
        }
        let mut v = vec![0u8; u32::from_le_bytes(h) as usize];
        if !read_exact(req, &mut v) {
            unsafe { sys::_exit(0) };
        }
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            let words: Vec<u32> = v.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            let r = crate::sessions::solo(&words);
            let mut o = (r.len() as u32).to_le_bytes().to_vec();
            o.extend_from_slice(&r);
            crate::engine::write_all_fd(resp, &o);
            unsafe { sys::_exit(0) };
        }
        let mut st = 0;
        unsafe { sys::waitpid(pid, &mut st, 0) };
        if st != 0 {
            crate::engine::write_all_fd(resp, &u32::MAX.to_le_bytes());
        }
    }
}

/// `None` if the session crashes even on its own.
pub fn ask(words: &[u32]) -> Option<Vec<u8>> {
    let mut o = ((words.len() * 4) as u32).to_le_bytes().to_vec();
    for w in words {
        o.extend_from_slice(&w.to_le_bytes());
    }
    assert!(crate::engine::write_all_fd(REQ.load(SeqCst), &o), "zygote gone");
    let mut h = [0u8; 4];
    assert!(read_exact(RESP.load(SeqCst), &mut h), "zygote gone");
    let n = u32::from_le_bytes(h);
    if n == u32::MAX {
        return None;
    }
    let mut v = vec![0u8; n as usize];
    assert!(read_exact(RESP.load(SeqCst), &mut v), "zygote gone");
    Some(v)
}
