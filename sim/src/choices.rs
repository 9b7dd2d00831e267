//! The one source of decisions. A run is a pure function of its choice stream and the code.
//! In random mode the stream comes from a seeded PRNG and is recorded; in replay mode it is given
//! (an exhausted stream yields 0, the simplest choice).

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub const fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next();
    r.next()
}

pub struct Choices {
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    pos: usize,
}

/// Where a worker mirrors the choices of the current run, so that they survive its death:
/// word 0 = run index, word 1 = number of choices, then the choices.
pub const SINK_WORDS: usize = 1 << 16;
static mut SINK: *mut u64 = std::ptr::null_mut();

pub fn set_sink(p: *mut u64) {
    unsafe { SINK = p }
}

pub fn sink_run(index: u64) {
    unsafe {
        if !SINK.is_null() {
            SINK.write_volatile(index);
            SINK.add(1).write_volatile(0);
        }
    }
}

#[inline]
fn sink_put(v: u64) {
    unsafe {
        if !SINK.is_null() {
            let n = SINK.add(1).read_volatile() as usize;
            if n + 2 < SINK_WORDS {
                SINK.add(2 + n).write_volatile(v);
            }
            SINK.add(1).write_volatile(n as u64 + 1);
        }
    }
}

impl Choices {
    pub fn random(seed: u64) -> Self {
        Choices { rng: Some(Rng::new(seed)), rec: Vec::with_capacity(256), pos: 0 }
    }
    pub fn replay(rec: Vec<u64>) -> Self {
        Choices { rng: None, rec, pos: 0 }
    }
    /// How many recorded choices were consumed.
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A value in 0..n (n >= 1). 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match self.rng.as_mut() {
            Some(r) => {
                // 128-bit multiply keeps the draw unbiased enough and reduction-free
                let v = ((r.next() as u128 * n as u128) >> 64) as u64;
                self.rec.push(v);
                sink_put(v);
                v
            }
            None => {
                let v = self.rec.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match self.rng.as_mut() {
            Some(r) => {
                let v = r.next();
                self.rec.push(v);
                sink_put(v);
                v
            }
            None => self.rec.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }
    /// True with probability p/256; false is the simple choice.
    pub fn chance(&mut self, p: u64) -> bool {
        self.draw(256) >= 256 - p.min(256)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u64) as usize]
    }
    /// lo..=hi, lo simplest.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn bytes8(&mut self) -> [u8; 8] {
        self.u64().to_le_bytes()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n {
            out.extend_from_slice(&self.u64().to_le_bytes());
        }
        out.truncate(n);
        out
    }
}
