//! The only source of decisions in the simulator: a tape of bounded draws.
//!
//! In search mode a draw comes from a PRNG seeded with one integer and is appended to the tape; in
//! replay mode it comes from a stored tape (0 past its end). Every generated document, schedule,
//! delay and fault is a function of the tape, so a tape *is* a run. Value 0 is always the simplest
//! choice, which is what the minimiser moves draws towards.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next() ^ r.next().rotate_left(17)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-1a, then mixed: a fixed function, unlike the std hasher
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, b.len() as u64)
}

pub struct Tape {
    pub data: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    /// Shared memory that survives this process: `[count, draws...]`.
    mirror: *mut u32,
}

unsafe impl Send for Tape {}

pub const MIRROR_MAX: usize = 1 << 20;

impl Tape {
    pub fn search(seed: u64) -> Self {
        Tape {
            data: Vec::new(),
            pos: 0,
            rng: Some(Rng::new(seed)),
            mirror: std::ptr::null_mut(),
        }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Tape {
            data,
            pos: 0,
            rng: None,
            mirror: std::ptr::null_mut(),
        }
    }
    pub fn mirrored(mut self, to: *mut u32) -> Self {
        self.mirror = to;
        if !to.is_null() {
            unsafe { *to = 0 };
        }
        self
    }
    /// Uniform in `0..n`.
    pub fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let v = ((r.next() >> 32) * u64::from(n) >> 32) as u32;
                self.data.push(v);
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        if !self.mirror.is_null() && self.pos < MIRROR_MAX {
            unsafe {
                *self.mirror.add(self.pos) = v;
                *self.mirror = self.pos as u32;
            }
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.draw(n.min(u32::MAX as usize) as u32) as usize
    }
    /// True with probability `num / den`; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.draw(den) >= den - num
    }
    /// Index into a table of weights; the first entry is the simple choice.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Continue a generated list? Called before each element, so that deleting the element's draws
    /// from the tape deletes the element.
    pub fn more(&mut self, i: usize, min: usize, max: usize, num: u32, den: u32) -> bool {
        if i >= max {
            return false;
        }
        if i < min {
            return true;
        }
        self.chance(num, den)
    }
    /// The draws made since position `from`.
    pub fn slice(&self, from: usize) -> Vec<u32> {
        let to = self.pos.min(self.data.len());
        self.data[from.min(to)..to].to_vec()
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}
