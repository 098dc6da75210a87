//! Choice sequences: every generated case is a function of a finite sequence of bounded integers, so that any failing
//! case can be shrunk (and replayed) by editing that sequence.

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

#[derive(Clone)]
pub struct Tape {
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { choices: Vec::with_capacity(256), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Tape { choices, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// an integer in 0..=max; 0 is the simplest
    pub fn raw(&mut self, max: u64) -> u64 {
        let v = if self.pos < self.choices.len() {
            let v = self.choices[self.pos];
            if max == u64::MAX {
                v
            } else if v > max {
                v % (max + 1)
            } else {
                v
            }
        } else if let Some(r) = &mut self.rng {
            let x = r.next();
            let v = if max == u64::MAX { x } else { ((x as u128 * (max as u128 + 1)) >> 64) as u64 };
            self.choices.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        lo + self.raw(hi - lo)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.raw(n as u64 - 1) as usize
    }
    /// true with probability p/100; false is the simplest
    pub fn chance(&mut self, p: u64) -> bool {
        self.raw(99) >= 100 - p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// index with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.raw(total - 1);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    /// lo..=hi with weight on the ends and on all orders of magnitude
    pub fn skew(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        match self.raw(9) {
            0 => lo,
            1 => hi,
            2 => lo + self.raw(span.min(3)),
            3 => hi - self.raw(span.min(3)),
            4 | 5 => lo + self.raw(span),
            _ => {
                let bits = 64 - span.leading_zeros() as u64;
                let b = self.raw(bits);
                let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
                lo + self.raw(m.min(span))
            }
        }
    }
    pub fn u128_below(&mut self, span: u128) -> u128 {
        // uniform enough in 0..=span
        if span <= u64::MAX as u128 {
            return self.raw(span as u64) as u128;
        }
        let hi = self.raw(u64::MAX) as u128;
        let lo = self.raw(u64::MAX) as u128;
        let x = (hi << 64) | lo;
        if span == u128::MAX {
            x
        } else {
            x % (span + 1)
        }
    }
    pub fn skew128(&mut self, lo: u128, hi: u128) -> u128 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        match self.raw(9) {
            0 => lo,
            1 => hi,
            2 => lo + self.raw(span.min(3) as u64) as u128,
            3 => hi - self.raw(span.min(3) as u64) as u128,
            4 | 5 => lo + self.u128_below(span),
            _ => {
                let bits = 128 - span.leading_zeros() as u64;
                let b = self.raw(bits);
                let m = if b >= 128 { u128::MAX } else { (1u128 << b) - 1 };
                lo + self.u128_below(m.min(span))
            }
        }
    }
    /// log-uniform in lo..=hi
    pub fn logu128(&mut self, lo: u128, hi: u128) -> u128 {
        if hi <= lo {
            return lo;
        }
        let lb = 128 - lo.max(1).leading_zeros() as u64;
        let hb = 128 - hi.leading_zeros() as u64;
        let b = self.range(lb, hb);
        let l = lo.max(if b == 0 { 0 } else { 1u128 << (b - 1) });
        let h = hi.min(if b >= 128 { u128::MAX } else { (1u128 << b) - 1 });
        if h <= l {
            return l.clamp(lo, hi);
        }
        l + self.u128_below(h - l)
    }
    pub fn logu(&mut self, lo: u64, hi: u64) -> u64 {
        self.logu128(lo as u128, hi as u128) as u64
    }
}

/// Greedy shrinking: `fails` says whether a choice sequence still fails. Returns the smallest found.
pub fn shrink(start: Vec<u64>, budget: std::time::Duration, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut best = start;
    let mut tries = 0u32;
    let over = |tries: u32| t0.elapsed() > budget || tries > 20_000;
    loop {
        let before = best.clone();
        // drop chunks, largest first
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if over(tries) {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                tries += 1;
                if fails(&c) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size = if size > 12 { size / 2 } else { size - 1 };
        }
        // simplify values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v != 0 {
                let mut cands = vec![0u64];
                let mut d = v / 2;
                while d > 0 {
                    cands.push(v - d);
                    d /= 2;
                    if cands.len() > 24 {
                        break;
                    }
                }
                for x in cands {
                    if over(tries) {
                        return best;
                    }
                    let mut c = best.clone();
                    c[i] = x;
                    tries += 1;
                    if fails(&c) {
                        best = c;
                        break;
                    }
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            let mut c = best.clone();
            c.pop();
            tries += 1;
            if fails(&c) {
                best = c;
            } else {
                break;
            }
        }
        if best == before {
            return best;
        }
    }
}
