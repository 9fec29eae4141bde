//! Case generators

/// numbers that the source under test mentions and the verified source did not: sizes, positions and values worth trying
/// (empty on the verified source)
pub static HINTS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
fn hints() -> &'static [usize] {
    HINTS.get().map_or(&[], |v| v)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 {
            r.0 = 1
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        let x = ((self.next() >> 11) as usize) % n;
        let h = hints();
        if n >= 8 && !h.is_empty() && (self.next() >> 13) % 24 == 0 {
            let k = self.near(h);
            if k < n {
                return k;
            }
        }
        x
    }
    fn near(&mut self, h: &[usize]) -> usize {
        let k = h[(self.next() >> 11) as usize % h.len()] + 1;
        k.saturating_sub((self.next() >> 11) as usize % 3)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        let h = hints();
        if hi - lo >= 3 && !h.is_empty() && (self.next() >> 13) % 24 == 0 {
            let k = self.near(h);
            if lo <= k && k <= hi {
                return k;
            }
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        let b = (self.next() >> 24) as u8;
        let h = hints();
        if !h.is_empty() && (self.next() >> 13) % 60 == 0 { self.near(h) as u8 } else { b }
    }
}

pub fn length(r: &mut Rng, big: usize) -> usize {
    let far: Vec<usize> = hints().iter().copied().filter(|h| *h > big && *h <= 300_000).collect();
    if !far.is_empty() && r.one_in(40) {
        return r.near(&far);
    }
    let m = match r.below(12) {
        0 => 3,
        1 | 2 => 20,
        3 | 4 | 5 => 130,
        6 | 7 => 700,
        8 | 9 => 5000,
        10 => 12000,
        _ => big,
    };
    r.below(m.min(big) + 1)
}

pub fn data(r: &mut Rng, len: usize) -> Vec<u8> {
    let mut d: Vec<u8> = vec![];
    match r.below(11) {
        0 => {
            while d.len() < len {
                d.push(r.byte())
            }
        }
        1 => {
            let k = r.range(1, 4);
            let base = if r.one_in(2) { 32 } else { r.byte() };
            while d.len() < len {
                d.push(base.wrapping_add(r.below(k) as u8))
            }
        }
        2 => {
            // runs
            while d.len() < len {
                let c = if r.one_in(3) { 32 } else { r.byte() };
                let n = if r.one_in(6) { r.range(1, 5000) } else { r.range(1, 130) };
                for _ in 0..n {
                    d.push(c)
                }
            }
        }
        3 => {
            // skewed frequencies
            let k = r.range(2, 24);
            let perm: Vec<u8> = (0..k).map(|_| r.byte()).collect();
            while d.len() < len {
                let mut i = 0;
                while i + 1 < k && r.one_in(2) {
                    i += 1
                }
                d.push(perm[i])
            }
        }
        4 => {
            // copies of earlier parts with changes, all kinds of distances
            while d.len() < len {
                if d.len() > 4 && !r.one_in(3) {
                    let back = match r.below(4) {
                        0 => r.range(1, 10),
                        1 => r.range(1, 300),
                        2 => r.range(3900, 4200),
                        _ => r.range(1, 5000),
                    }
                    .min(d.len());
                    let l = r.range(1, 140);
                    for _ in 0..l {
                        let c = d[d.len() - back];
                        d.push(c)
                    }
                    if r.one_in(2) {
                        d.push(r.byte())
                    }
                } else {
                    for _ in 0..r.range(1, 12) {
                        d.push(r.byte())
                    }
                }
            }
        }
        5 => {
            // words
            let words: Vec<Vec<u8>> = (0..r.range(2, 40)).map(|_| (0..r.range(1, 9)).map(|_| 97 + r.below(26) as u8).collect()).collect();
            while d.len() < len {
                let w = r.below(words.len());
                d.extend_from_slice(&words[w]);
                d.push(if r.one_in(12) { b'\n' } else { b' ' });
            }
        }
        6 => {
            // period
            let p = match r.below(4) {
                0 => r.range(1, 4),
                1 => r.range(5, 130),
                2 => r.range(4030, 4100),
                _ => r.range(131, 5000),
            };
            let base: Vec<u8> = (0..p).map(|_| r.byte()).collect();
            let mut i = 0;
            while d.len() < len {
                d.push(base[i % p]);
                i += 1;
                if r.one_in(400) {
                    i += 1
                }
            }
        }
        7 => {
            // ramps: ordered strings make degenerate trees
            let step = r.range(1, 3) as u8;
            let w = r.range(2, 6);
            let mut c = 0u32;
            while d.len() < len {
                for k in (0..w).rev() {
                    d.push(((c >> (4 * k)) & 15) as u8)
                }
                c = if r.one_in(50) { r.next() as u32 } else { c.wrapping_add(step as u32) };
            }
        }
        8 => {
            // few symbols, then every byte value
            let k = r.range(1, 3);
            while d.len() < len {
                d.push(if r.one_in(40) { r.byte() } else { r.below(k) as u8 })
            }
        }
        9 => {
            // each byte value once in a while, in order, both directions
            let mut c = r.byte();
            let dir = if r.one_in(2) { 1u8 } else { 255 };
            while d.len() < len {
                d.push(c);
                c = c.wrapping_add(dir);
                if r.one_in(300) {
                    c = r.byte()
                }
            }
        }
        _ => {
            // spaces and a few (precursor matches)
            while d.len() < len {
                d.push(if r.one_in(9) { r.byte() } else { b' ' })
            }
        }
    }
    d.truncate(len);
    d
}

/// records in order behind a few that are not: search trees with long paths; then something to push them out
pub fn paths(r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    let len = r.range(5_000, 12_000);
    let p = r.byte();
    let top = 2304;
    let rec = |d: &mut Vec<u8>, v: usize| d.extend_from_slice(&[p, p ^ (1 + v / 48) as u8, p ^ (1 + v % 48) as u8]);
    while d.len() < len {
        let (from, n, step) = (r.below(700), r.range(300, 1500), if r.one_in(4) { 2 } else { 1 });
        let to = (from + n * step).min(top - 10);
        match r.below(4) {
            0 => {
                rec(&mut d, to + 1);
                rec(&mut d, to + 3);
            }
            1 => {
                let v = r.below(10);
                rec(&mut d, from.saturating_sub(1 + v));
                rec(&mut d, from.saturating_sub(3 + v));
            }
            2 => {}
            _ => {
                for _ in 0..r.below(6) {
                    let v = r.below(top);
                    rec(&mut d, v);
                }
            }
        }
        let mut v: Vec<usize> = (from..to).step_by(step).collect();
        if r.one_in(2) {
            v.reverse();
        }
        for v in v {
            rec(&mut d, v);
        }
        let q = r.below(3) as u8;
        for i in 0..r.below(4500) {
            let c = (i * 7 % 199) as u8;
            d.push(if c == p { c ^ 1 + q } else { c })
        }
    }
    d
}

/// long runs in one LZW chunk: strings of more than a thousand bytes
pub fn runs(r: &mut Rng) -> Vec<u8> {
    let p: Vec<u8> = (0..r.range(1, 3)).map(|_| r.byte()).collect();
    let mut d = vec![];
    let n = r.range(300_000, 1_500_000);
    for i in 0..n {
        d.push(p[i % p.len()])
    }
    for _ in 0..r.range(1, 5) {
        d.push(r.byte());
        let (n, a) = (r.below(4000), r.below(3));
        for i in 0..n {
            d.push(p[(i + a) % p.len()])
        }
    }
    d
}

/// input on which the Huffman code of some symbols gets longer than 16 bits
pub fn deep(seed: u64, nlit: usize, a0: usize, s0: usize) -> Vec<u8> {
    let mut x = seed;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let mut h: Vec<u8> = (0..nlit).map(|i| 100 + i as u8).collect();
    let (mut sub, mut a) = (s0, a0);
    let mut tot = 314 + nlit;
    let mut sched = vec![];
    let mut len = 13usize;
    loop {
        if tot + a - 1 + 40 > 0x8000 {
            break;
        }
        for _ in 0..a - 1 {
            sched.push(len)
        }
        tot += a - 1;
        len -= 1;
        let ns = sub + a;
        a = sub + 1;
        sub = ns;
    }
    let mut prev: Option<Vec<u8>> = None;
    for &l in &sched {
        for _ in 0..3000 {
            let lo = h.len().saturating_sub(3900);
            if h.len() - lo < l {
                break;
            }
            let p = lo + (rnd() as usize) % (h.len() - lo - l + 1);
            let f = h[p..p + l].to_vec();
            if let Some(pv) = &prev {
                let mut g = pv.clone();
                g.push(f[0]);
                if h[h.len().saturating_sub(4100)..].windows(g.len()).any(|w| w == &g[..]) {
                    continue;
                }
            }
            h.extend_from_slice(&f);
            prev = Some(f);
            break;
        }
    }
    for b in 0..60u8 {
        h.push(b)
    }
    h
}
