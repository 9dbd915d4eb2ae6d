//! Choice-tape generator: every random decision of a case goes through [`Gen`], is recorded on a
//! tape, and can be replayed from that tape.  Shrinking edits the tape (see `runner`).

/// splitmix64.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub struct Gen {
    /// Recorded (or replayed) choices.
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// Every choice is also written here (so that the tape survives a crash).
    dump: Option<std::fs::File>,
}

impl Gen {
    pub fn dump_to(&mut self, f: std::fs::File) {
        self.dump = Some(f);
    }
    #[inline]
    fn note(&mut self, v: u64) {
        if let Some(f) = self.dump.as_mut() {
            use std::io::Write;
            let _ = f.write_all(format!("{v} ").as_bytes());
        }
    }
    pub fn from_seed(seed: u64) -> Self {
        Self {
            tape: Vec::new(),
            pos: 0,
            rng: Some(Rng::new(seed)),
            dump: None,
        }
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Self {
            tape,
            pos: 0,
            rng: None,
            dump: None,
        }
    }
    /// The choices that were actually consumed.
    pub fn used(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// A value in `[0, n)`.  `0` is the simplest choice.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if let Some(rng) = self.rng.as_mut() {
            let v = rng.below(n);
            self.tape.push(v);
            v
        } else if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            let v = if v >= n { v % n } else { v };
            self.tape[self.pos] = v;
            v
        } else {
            self.tape.push(0);
            0
        };
        self.pos += 1;
        self.note(v);
        v
    }
    /// A value drawn by `f` when generating, read back modulo `n` when replaying.
    pub fn drawn(&mut self, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        if let Some(rng) = self.rng.as_mut() {
            let v = f(rng).min(n.max(1) - 1);
            self.tape.push(v);
            self.pos += 1;
            self.note(v);
            v
        } else {
            self.below(n)
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// A value in `[lo, hi]`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// `true` with probability `num / den`; `false` is the simpler choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.drawn(2, |r| u64::from(r.below(den) < num)) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index picked with the given weights; index `0` is the simplest choice.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| u64::from(*w)).sum();
        let n = ws.len() as u64;
        let ws = ws.to_vec();
        self.drawn(n, |r| {
            let mut x = r.below(total);
            for (i, w) in ws.iter().enumerate() {
                if x < u64::from(*w) {
                    return i as u64;
                }
                x -= u64::from(*w);
            }
            0
        }) as usize
    }
    /// Log-uniform value in `[0, max]`.
    pub fn log_uniform(&mut self, max: u64) -> u64 {
        self.drawn(max + 1, |r| {
            let bits = 64 - max.leading_zeros() as u64;
            let b = r.below(bits + 1);
            r.below((1_u64 << b).min(max + 1))
        })
    }
}
