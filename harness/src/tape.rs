//! Choice sequences: every random decision of a case is a number drawn from a
//! `Tape`. A case is a pure function of its tape, so a failing case is replayed
//! from the recorded numbers and shrunk by simplifying them (smaller number =
//! simpler choice, missing number = 0).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

pub struct Tape {
    given: Vec<u64>,
    pub used: Vec<u64>,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { given: vec![], used: vec![], rng: Some(Rng::new(seed)) }
    }
    pub fn replay(given: &[u64]) -> Tape {
        Tape { given: given.to_vec(), used: vec![], rng: None }
    }

    /// A number in 0..n (n > 0); 0 is the simplest
    pub fn below(&mut self, n: u64) -> u64 {
        let i = self.used.len();
        let v = if i < self.given.len() {
            self.given[i].min(n - 1)
        } else if let Some(ref mut r) = self.rng {
            // plain modulo: the bias is irrelevant here
            r.next() % n
        } else {
            0
        };
        self.used.push(v);
        v
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// An index chosen with the given weights; shrinks to 0
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        ws.len() - 1
    }
    /// Uniform in 0..1 on a grid of 2^-32
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 32) as f64 / (1u64 << 32) as f64
    }
    /// A permutation of 0..n; shrinks to the identity
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below((n - i) as u64) as usize;
            v.swap(i, j);
        }
        v
    }
}

/// Shrink a failing choice sequence. `fails` runs a candidate and returns the
/// numbers it really used if it still fails.
pub fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(start: Vec<u64>, mut fails: F, budget: usize) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;

    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }

    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || !better(&cand, best) {
            return false;
        }
        *left -= 1;
        if let Some(used) = fails(&cand) {
            let new = if better(&used, &cand) { used } else { cand };
            *best = new;
            true
        } else {
            false
        }
    };

    loop {
        let before = best.clone();

        // delete blocks
        for k in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && left > 0 {
                i = i.saturating_sub(1);
                if i + k <= best.len() {
                    let mut c = best[..i].to_vec();
                    c.extend_from_slice(&best[i + k..]);
                    if !attempt(c, &mut best, &mut left) && i > 0 {
                        // delete a block and lower the count in front of it
                        let mut c = best[..i].to_vec();
                        if c[i - 1] > 0 {
                            c[i - 1] -= 1;
                            c.extend_from_slice(&best[i + k..]);
                            attempt(c, &mut best, &mut left);
                        }
                    }
                }
            }
        }
        // zero blocks
        for k in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() && left > 0 {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + k] {
                        *x = 0;
                    }
                    attempt(c, &mut best, &mut left);
                }
                i += k;
            }
        }
        // lower single numbers
        let mut i = 0;
        while i < best.len() && left > 0 {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && left > 0 && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut left) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i];
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }

        if best == before || left == 0 {
            return best;
        }
    }
}
