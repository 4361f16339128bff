//! Where the inputs of a contract come from. The same contract function is used three ways:
//! * under Kani, every value is symbolic (`kani::any()`), so the contract is decided for all inputs;
//! * natively, values come from a seeded, recorded stream of choices (search + minimisation + replay);
//! * natively again, from the concrete values of a Kani counterexample (replay on the real code).

pub trait Src {
    fn bool(&mut self) -> bool;
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn usize(&mut self) -> usize {
        self.u64() as usize
    }
    fn i32(&mut self) -> i32;
    fn i64(&mut self) -> i64;
    fn f32(&mut self) -> f32;
    fn f64(&mut self) -> f64;
    /// A value in `lo..=hi`.
    fn range(&mut self, lo: i64, hi: i64) -> i64;
    fn below(&mut self, n: usize) -> usize {
        self.range(0, n as i64 - 1) as usize
    }
    /// Cut the run short unless `c` holds (a precondition).
    fn assume(&mut self, c: bool);
    /// Is this a symbolic run?
    fn symbolic(&self) -> bool {
        false
    }
    /// Describe the generated input (native runs only).
    fn note(&mut self, _f: &dyn Fn() -> String) {}
}

/// Panic payload for a case that does not meet its precondition.
pub struct Skip;

/// Recorded pseudo-random choices (splitmix64), or a fixed list to replay.
pub struct Rng {
    state: u64,
    pub log: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub size: usize,
    pub notes: Option<Vec<String>>,
}

impl Rng {
    pub fn new(seed: u64, size: usize) -> Self {
        Rng { state: seed, log: Vec::new(), replay: None, pos: 0, size, notes: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Rng { state: 0, log: Vec::new(), replay: Some(choices), pos: 0, size: 8, notes: None }
    }
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// One recorded choice in `0..n` (`n == 0`: all of u64).
    fn choose(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 { v } else { v % n }
            }
            None => {
                let v = self.next();
                if n == 0 { v } else { v % n }
            }
        };
        self.log.push(v);
        v
    }
    fn int(&mut self, lo: i128, hi: i128) -> i128 {
        // Mixture: small values, values near the limits, and anything.
        let span = hi - lo;
        let v = match self.choose(8) {
            0..=3 => self.choose(24) as i128,
            4 => -(self.choose(24) as i128),
            5 => {
                if self.choose(2) == 0 { hi - self.choose(4) as i128 } else { lo + self.choose(4) as i128 }
            }
            6 => (self.choose(4000) as i128) - 2000,
            _ => lo + (self.choose(0) as i128 & 0x7fff_ffff_ffff_ffff) % (span + 1).max(1),
        };
        v.clamp(lo, hi)
    }
}

impl Src for Rng {
    fn bool(&mut self) -> bool {
        self.choose(2) == 1
    }
    fn u8(&mut self) -> u8 {
        match self.choose(4) {
            0 => [0u8, 255, 1, 254, 127, 128][self.choose(6) as usize],
            _ => self.choose(256) as u8,
        }
    }
    fn u16(&mut self) -> u16 {
        self.int(0, u16::MAX as i128) as u16
    }
    fn u32(&mut self) -> u32 {
        self.int(0, u32::MAX as i128) as u32
    }
    fn u64(&mut self) -> u64 {
        self.int(0, u64::MAX as i128) as u64
    }
    fn i32(&mut self) -> i32 {
        self.int(i32::MIN as i128, i32::MAX as i128) as i32
    }
    fn i64(&mut self) -> i64 {
        self.int(i64::MIN as i128, i64::MAX as i128) as i64
    }
    fn f32(&mut self) -> f32 {
        match self.choose(6) {
            0 => [0.0f32, 1.0, -0.0, 0.5, 1e-7, 0.999_999_94, -1.0, 2.0, f32::INFINITY, f32::NAN][self.choose(10) as usize],
            1 => f32::from_bits(self.choose(0) as u32),
            _ => self.choose(1 << 24) as f32 / (1u32 << 24) as f32,
        }
    }
    fn f64(&mut self) -> f64 {
        match self.choose(6) {
            0 => [0.0f64, 1.0, -0.0, 0.5, 1e-12, 100.0, 33.3, 66.6, 12.5, 1e6][self.choose(10) as usize],
            1 => f64::from_bits(self.choose(0)),
            2 => self.choose(200) as f64,
            _ => self.choose(1 << 53) as f64 / (1u64 << 53) as f64,
        }
    }
    fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        lo + self.choose((hi - lo) as u64 + 1) as i64
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Skip));
        }
    }
    fn note(&mut self, f: &dyn Fn() -> String) {
        if let Some(n) = &mut self.notes {
            n.push(f());
        }
    }
}

/// Values of a Kani counterexample, in the order Kani asked for them.
pub struct Playback {
    pub vals: Vec<Vec<u8>>,
    pub pos: usize,
    pub notes: Vec<String>,
}
impl Playback {
    fn take<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0u8; N];
        if let Some(v) = self.vals.get(self.pos) {
            for (o, b) in out.iter_mut().zip(v) {
                *o = *b;
            }
        }
        self.pos += 1;
        out
    }
}
impl Src for Playback {
    fn bool(&mut self) -> bool {
        self.take::<1>()[0] & 1 == 1
    }
    fn u8(&mut self) -> u8 {
        self.take::<1>()[0]
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take())
    }
    fn i32(&mut self) -> i32 {
        i32::from_le_bytes(self.take())
    }
    fn i64(&mut self) -> i64 {
        i64::from_le_bytes(self.take())
    }
    fn f32(&mut self) -> f32 {
        f32::from_le_bytes(self.take())
    }
    fn f64(&mut self) -> f64 {
        f64::from_le_bytes(self.take())
    }
    fn range(&mut self, lo: i64, hi: i64) -> i64 {
        self.i64().clamp(lo, hi)
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Skip));
        }
    }
    fn note(&mut self, f: &dyn Fn() -> String) {
        self.notes.push(f());
    }
}

#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Src for Sym {
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn i32(&mut self) -> i32 {
        kani::any()
    }
    fn i64(&mut self) -> i64 {
        kani::any()
    }
    fn f32(&mut self) -> f32 {
        kani::any()
    }
    fn f64(&mut self) -> f64 {
        kani::any()
    }
    fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let v: i64 = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c);
    }
    fn symbolic(&self) -> bool {
        true
    }
}
