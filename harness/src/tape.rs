//! Choice-tape generator: every random decision of a case is one entry of a tape, so that a case is
//! reproduced exactly by its tape and is shrunk by editing the tape.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { (self.next() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { self.next() }
    fn fill_bytes(&mut self, dst: &mut [u8]) { for b in dst { *b = self.next() as u8; } }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    Rng(h).next()
}

pub struct Gen {
    pub tape: Vec<u64>,
    pub pos: usize,
    rng: Option<Rng>,
}
impl Gen {
    pub fn random(seed: u64) -> Self { Gen { tape: vec![], pos: 0, rng: Some(Rng::new(seed)) } }
    pub fn replay(tape: Vec<u64>) -> Self { Gen { tape, pos: 0, rng: None } }

    fn raw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => { let v = r.next(); let v = if n == 0 { v } else { v % n }; self.tape.push(v); v }
            None => match self.tape.get(self.pos) {
                Some(&v) => if n == 0 { v } else { v % n },
                None => 0,
            },
        };
        self.pos += 1;
        v
    }
    /// Uniform in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: usize) -> usize { debug_assert!(n > 0); self.raw(n as u64) as usize }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.raw((b - a + 1) as u64) as i64 }
    pub fn bits(&mut self) -> u64 { self.raw(0) }
    /// True with probability num/den (false is simplest).
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) >= den - num }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    pub fn pickc<T: Clone>(&mut self, xs: &[T]) -> T { self.pick(xs).clone() }
    /// Index chosen with the given weights (earlier = simpler).
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() { if x < *w { return i } x -= w; }
        unreachable!()
    }
    /// A length in `0..=max`, biased towards short.
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 { return 0 }
        let m = if self.chance(1, 4) { max } else { max.min(4) };
        self.below(m + 1)
    }
    pub fn rng(&mut self) -> Rng { Rng::new(self.bits()) }
}

/// Tape shrinking: returns a smaller tape on which `fails` still holds.
pub fn shrink(tape: Vec<u64>, mut fails: impl FnMut(&[u64]) -> bool, max_tries: usize, deadline: std::time::Instant) -> (Vec<u64>, usize) {
    let mut best = tape;
    let mut tries = 0;
    macro_rules! attempt { ($c:expr) => {{
        let c: Vec<u64> = $c;
        if tries >= max_tries || std::time::Instant::now() > deadline { false }
        else { tries += 1; if fails(&c) { best = c; true } else { false } }
    }} }
    loop {
        let before = best.clone();
        // truncate
        let mut k = best.len() / 2;
        while k > 0 {
            if best.len() > k && attempt!(best[..best.len() - k].to_vec()) { } else { k /= 2; }
            if tries >= max_tries || std::time::Instant::now() > deadline { break }
        }
        // delete chunks
        let mut k = (best.len() / 2).next_power_of_two().max(1);
        while k > 0 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                let mut c = best[..i].to_vec(); c.extend_from_slice(&best[e..]);
                if c.len() < best.len() && attempt!(c) { } else { i += k; }
                if tries >= max_tries || std::time::Instant::now() > deadline { break }
            }
            k /= 2;
        }
        // zero chunks
        let mut k = 8;
        while k > 0 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone(); for x in &mut c[i..e] { *x = 0; }
                    attempt!(c);
                }
                i += k;
                if tries >= max_tries || std::time::Instant::now() > deadline { break }
            }
            k /= 2;
        }
        // minimise single values
        for i in 0..best.len() {
            if i >= best.len() { break }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone(); c[i] = mid;
                if attempt!(c) { hi = mid } else { lo = mid + 1 }
                if tries >= max_tries || std::time::Instant::now() > deadline { break }
            }
            if tries >= max_tries || std::time::Instant::now() > deadline { break }
        }
        if best == before || tries >= max_tries || std::time::Instant::now() > deadline { break }
    }
    (best, tries)
}
