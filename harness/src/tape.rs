//! The choice tape every generated case is decoded from.
//!
//! A case is a pure function of its tape. In random mode choices are drawn
//! from a seeded generator and recorded; in replay mode they are read back.
//! Shrinking edits the recorded tape, so it works for every generator.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Tape {
    rng: Option<Rng>,
    pub rec: Vec<u32>,
    pos: usize,
    /// features seen while decoding (for classification)
    pub feats: Vec<&'static str>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), rec: Vec::with_capacity(256), pos: 0, feats: Vec::new() }
    }
    pub fn replay(rec: Vec<u32>) -> Self {
        Tape { rng: None, rec, pos: 0, feats: Vec::new() }
    }
    /// how many choices were consumed
    pub fn used(&self) -> usize {
        self.pos
    }
    /// a choice in 0..n; 0 is the simplest
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut r) => {
                let v = ((r.next() >> 32) * u64::from(n)) >> 32;
                let v = v as u32;
                self.rec.push(v);
                v
            }
            None => {
                let v = self.rec.get(self.pos).copied().unwrap_or(0);
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.pos += 1;
        v
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        // high values are true so that the zero tape is all false
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    /// index chosen with the given weights; index of first non-zero weight is simplest
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.iter().position(|w| *w > 0).unwrap_or(0)
    }
    /// a small count with a heavy tail: mostly 0..=lo, sometimes up to hi
    pub fn count(&mut self, lo: u32, hi: u32) -> u32 {
        if hi > lo && self.chance(1, 24) {
            self.below(hi + 1)
        } else {
            self.below(lo + 1)
        }
    }
    pub fn feat(&mut self, f: &'static str) {
        self.feats.push(f);
    }
}
