//! Reference codecs, written from the format descriptions, sharing no code with the library.

/// Adaptive Huffman model of LZHUF (n symbols)
pub struct Huff {
    n: usize,
    t: usize,
    freq: Vec<u32>,
    up: Vec<usize>,   // parent of node; for t+s: position of the leaf of symbol s
    down: Vec<usize>, // left child, or t+s for the leaf of s
    pub rebuilds: usize,
    pub deepest: usize,
}

impl Huff {
    pub fn new(n: usize) -> Self {
        let t = 2 * n - 1;
        let mut h = Huff { n, t, freq: vec![0; t], up: vec![0; t + n], down: vec![0; t], rebuilds: 0, deepest: 0 };
        for s in 0..n {
            h.freq[s] = 1;
            h.down[s] = t + s;
            h.up[t + s] = s;
        }
        let mut c = 0;
        for p in n..t {
            h.freq[p] = h.freq[c] + h.freq[c + 1];
            h.down[p] = c;
            h.up[c] = p;
            h.up[c + 1] = p;
            c += 2;
        }
        h
    }
    fn rebuild(&mut self) {
        self.rebuilds += 1;
        // list of (freq, down), leaves halved in order, then each pair's parent inserted behind the last entry not larger
        let mut l: Vec<(u32, usize)> = (0..self.t).filter(|i| self.down[*i] >= self.t).map(|i| ((self.freq[i] + 1) / 2, self.down[i])).collect();
        assert_eq!(l.len(), self.n);
        let mut c = 0;
        while l.len() < self.t {
            let f = l[c].0 + l[c + 1].0;
            let mut k = l.len();
            while l[k - 1].0 > f {
                k -= 1;
            }
            l.insert(k, (f, c));
            c += 2;
        }
        for (i, (f, d)) in l.into_iter().enumerate() {
            self.freq[i] = f;
            self.down[i] = d;
            self.up[d] = i;
            if d < self.t {
                self.up[d + 1] = i;
            }
        }
    }
    fn relink(&mut self, i: usize) {
        let d = self.down[i];
        self.up[d] = i;
        if d < self.t {
            self.up[d + 1] = i;
        }
    }
    pub fn bump(&mut self, s: usize) {
        let root = self.t - 1;
        if self.freq[root] == 0x8000 {
            self.rebuild();
        }
        let mut c = self.up[self.t + s];
        loop {
            self.freq[c] += 1;
            let f = self.freq[c];
            // last node with a smaller frequency
            let mut l = c;
            while l + 1 < self.t && self.freq[l + 1] < f {
                l += 1;
            }
            if l != c {
                self.freq.swap(c, l);
                self.down.swap(c, l);
                self.relink(c);
                self.relink(l);
                c = l;
            }
            if c == root {
                break;
            }
            c = self.up[c];
        }
    }
    pub fn code(&mut self, s: usize) -> Vec<bool> {
        let root = self.t - 1;
        let mut v = vec![];
        let mut c = self.up[self.t + s];
        while c != root {
            v.push(c % 2 == 1);
            c = self.up[c];
        }
        v.reverse();
        self.deepest = self.deepest.max(v.len());
        v
    }
}

/// code for the upper six bits of a position: prefix code with lengths 3,4x3,5x8,6x12,7x24,8x16
fn pos_table() -> Vec<(u32, usize)> {
    let lens = [(3usize, 1usize), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)];
    let mut v = vec![];
    let mut code = 0u32;
    for (l, n) in lens {
        for _ in 0..n {
            v.push((code >> (8 - l), l));
            code += 1 << (8 - l);
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub enum Tok {
    Lit(u8),
    Match { back: usize, len: usize }, // back >= 1
}

#[derive(Clone, Debug)]
pub struct LzOpt {
    pub window: usize,
    pub look: usize,
    pub thr: usize,
    pub pre: u8,
}
pub const STD: LzOpt = LzOpt { window: 4096, look: 60, thr: 2, pre: b' ' };

struct BitsIn<'a> {
    d: &'a [u8],
    p: usize,
    zero_fill: bool,
}
impl<'a> BitsIn<'a> {
    fn bit(&mut self) -> Option<usize> {
        let i = self.p;
        if i / 8 >= self.d.len() {
            if self.zero_fill {
                self.p += 1;
                return Some(0);
            }
            return None;
        }
        self.p += 1;
        Some(((self.d[i / 8] >> (7 - i % 8)) & 1) as usize)
    }
}

/// decode; returns output and number of bits used
pub fn lz_decode(d: &[u8], o: &LzOpt, limit: u64, zero_fill: bool) -> (Vec<u8>, usize) {
    let mut h = Huff::new(256 + o.look - o.thr);
    let tab = pos_table();
    let mut b = BitsIn { d, p: 0, zero_fill };
    let mut win: Vec<u8> = vec![o.pre; o.window - o.look];
    win.resize(o.window, 0);
    let mut at = o.window - o.look;
    let mut out = vec![];
    'main: while (out.len() as u64) < limit {
        let mut c = h.t - 1;
        let s = loop {
            let k = h.down[c];
            if k >= h.t {
                break k - h.t;
            }
            match b.bit() {
                Some(x) => c = k + x,
                None => break 'main,
            }
        };
        h.bump(s);
        if s < 256 {
            out.push(s as u8);
            win[at] = s as u8;
            at = (at + 1) % o.window;
        } else {
            let (mut v, mut l) = (0u32, 0usize);
            let up = loop {
                match b.bit() {
                    Some(x) => v = 2 * v + x as u32,
                    None => break 'main,
                }
                l += 1;
                if let Some(i) = tab.iter().position(|e| *e == (v, l)) {
                    break i;
                }
                assert!(l < 9);
            };
            let mut low = 0;
            for _ in 0..6 {
                match b.bit() {
                    Some(x) => low = 2 * low + x,
                    None => break 'main,
                }
            }
            let back = (up * 64 + low + 1) % o.window;
            let from = (at + o.window - back) % o.window;
            for k in 0..s + o.thr - 255 {
                // position relative to the moving end: same distance for every byte
                let c = win[(from + k) % o.window];
                out.push(c);
                win[at] = c;
                at = (at + 1) % o.window;
            }
        }
    }
    (out, b.p)
}

/// bits of a token sequence
pub fn lz_encode(toks: &[Tok], o: &LzOpt) -> (Vec<u8>, usize, usize) {
    let mut h = Huff::new(256 + o.look - o.thr);
    let tab = pos_table();
    let mut bits: Vec<bool> = vec![];
    for t in toks {
        match t {
            Tok::Lit(b) => {
                bits.extend(h.code(*b as usize));
                h.bump(*b as usize);
            }
            Tok::Match { back, len } => {
                let s = 255 - o.thr + len;
                bits.extend(h.code(s));
                h.bump(s);
                let p = back - 1;
                let (v, l) = tab[p >> 6];
                for i in (0..l).rev() {
                    bits.push((v >> i) & 1 == 1);
                }
                for i in (0..6).rev() {
                    bits.push((p >> i) & 1 == 1);
                }
            }
        }
    }
    (pack(&bits, true), h.rebuilds, h.deepest)
}

pub fn pack(bits: &[bool], msb: bool) -> Vec<u8> {
    bits.chunks(8)
        .map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| if *b { a | if msb { 0x80 >> i } else { 1 << i } } else { a }))
        .collect()
}

#[derive(Clone, Debug)]
pub struct LzwOpt {
    pub width: usize,
    pub msb: bool,
    pub chunk: usize,
    pub clear: Option<usize>,
    pub stop: Option<usize>,
    pub hbits: usize,
    pub hdiv: usize,
}

fn put(bits: &mut Vec<bool>, v: usize, n: usize, msb: bool) {
    for i in 0..n {
        bits.push(if msb { (v >> (n - 1 - i)) & 1 == 1 } else { (v >> i) & 1 == 1 });
    }
}

fn following(c: usize, o: &LzwOpt) -> usize {
    let mut c = c;
    while Some(c) == o.clear || Some(c) == o.stop || c < 256 {
        c += 1;
    }
    c
}

/// the reference greedy LZW stream
pub fn lzw_encode(d: &[u8], o: &LzwOpt) -> Vec<u8> {
    use std::collections::HashMap;
    let mut bits = vec![];
    let mut p = 0;
    loop {
        // a chunk
        let mut dict: HashMap<(usize, u8), usize> = HashMap::new();
        let mut next = following(0, o);
        let mut codes: Vec<usize> = vec![];
        let mut last = false;
        loop {
            if p == d.len() {
                last = true;
                break;
            }
            let mut cur = d[p] as usize;
            p += 1;
            while p < d.len() {
                match dict.get(&(cur, d[p])) {
                    Some(c) => {
                        cur = *c;
                        p += 1;
                    }
                    None => break,
                }
            }
            codes.push(cur);
            if p == d.len() {
                last = true;
                break;
            }
            if next < 1 << o.width {
                dict.insert((cur, d[p]), next);
                next = following(next + 1, o);
            }
            if codes.len() >= o.chunk {
                break;
            }
        }
        if last {
            codes.extend(o.stop);
        } else {
            codes.extend(o.clear);
        }
        put(&mut bits, codes.len() * o.width / o.hdiv, o.hbits, o.msb);
        for c in codes {
            put(&mut bits, c, o.width, o.msb);
        }
        if last {
            return pack(&bits, o.msb);
        }
    }
}

/// what a stream of codes denotes, None: a code that is neither known nor next
pub fn lzw_decode(d: &[u8], o: &LzwOpt) -> Option<Vec<u8>> {
    let total = 8 * d.len();
    let mut p = 0usize;
    let get = |p: &mut usize, n: usize| -> Option<usize> {
        if *p + n > total {
            return None;
        }
        let mut v = 0;
        for i in 0..n {
            let by = d[(*p + i) / 8];
            let k = (*p + i) % 8;
            let b = if o.msb { (by >> (7 - k)) & 1 } else { (by >> k) & 1 } as usize;
            v |= if o.msb { b << (n - 1 - i) } else { b << i };
        }
        *p += n;
        Some(v)
    };
    let mut out = vec![];
    loop {
        let mut strings: std::collections::HashMap<usize, Vec<u8>> = (0..256).map(|i| (i, vec![i as u8])).collect();
        let mut next = following(0, o);
        let mut prev: Option<Vec<u8>> = None;
        let mut left: Option<i128> = None;
        if o.hbits > 0 {
            match get(&mut p, o.hbits) {
                Some(v) => left = Some(v as i128 * o.hdiv as i128),
                None => return Some(out),
            }
        }
        loop {
            if let Some(l) = left {
                if l <= 0 {
                    break;
                }
            }
            let c = match get(&mut p, o.width) {
                Some(c) => c,
                None => return Some(out),
            };
            if Some(c) == o.stop {
                return Some(out);
            }
            if Some(c) == o.clear {
                break;
            }
            left = left.map(|l| l - o.width as i128);
            let s = match (strings.get(&c), &prev) {
                (Some(s), _) => s.clone(),
                (None, Some(pv)) if c == next && next < 1 << o.width => {
                    let mut s = pv.clone();
                    s.push(pv[0]);
                    s
                }
                _ => return None,
            };
            if let Some(pv) = prev {
                if next < 1 << o.width {
                    let mut n = pv;
                    n.push(s[0]);
                    strings.insert(next, n);
                    next = following(next + 1, o);
                }
            }
            out.extend(&s);
            prev = Some(s);
        }
    }
}

/// CRC-16, polynomial 0xA097, seed 0
pub fn crc16(d: &[u8]) -> u16 {
    let mut r: u32 = 0; // polynomial division, bit by bit
    for bit in 0..8 * d.len() + 16 {
        let b = if bit / 8 < d.len() { (d[bit / 8] >> (7 - bit % 8)) & 1 } else { 0 } as u32;
        r = (r << 1) | b;
        if r & 0x10000 != 0 {
            r ^= 0x1a097;
        }
    }
    r as u16
}

/// The match search of LZHUF: which token follows, for a window with `over` bytes behind its end that repeat its
/// beginning from the moment it is written (59: the array of LZHUF.C, zero at first; 0: positions count modulo the window)
pub fn lzhuf_tokens(d: &[u8], over: usize) -> Vec<Tok> {
    const W: usize = 4096;
    const F: usize = 60;
    let mut s = Search { win: vec![0; W + over], kid: vec![[NIL; 2]; W + 256], dad: vec![NIL; W + 256], over, len: 0, off: 0 };
    for i in 0..W - F {
        s.win[i] = b' ';
    }
    let mut at = W - F;
    let mut next = d.len().min(F);
    let mut ahead = next;
    s.win[at..at + next].copy_from_slice(&d[..next]);
    for i in 1..=F {
        s.insert(at - i);
    }
    s.insert(at);
    let mut toks = vec![];
    while ahead > 0 {
        let n = s.len.min(ahead);
        let take = if n > 2 {
            toks.push(Tok::Match { back: s.off + 1, len: n });
            n
        } else {
            toks.push(Tok::Lit(s.win[at]));
            1
        };
        for _ in 0..take {
            let q = (at + F) % W;
            s.delete(q);
            at = (at + 1) % W;
            if next < d.len() {
                s.put(q, d[next]);
                next += 1;
            } else {
                ahead -= 1;
            }
            if ahead > 0 {
                s.insert(at);
            }
        }
    }
    toks
}
const NIL: usize = usize::MAX;
struct Search {
    win: Vec<u8>,
    /// nodes 0..4096 are positions, 4096 + b the root for first byte b (its kid 1)
    kid: Vec<[usize; 2]>,
    dad: Vec<usize>,
    over: usize,
    len: usize,
    off: usize,
}
impl Search {
    fn get(&self, i: usize) -> u8 {
        if self.over > 0 { self.win[i] } else { self.win[i % 4096] }
    }
    fn put(&mut self, q: usize, b: u8) {
        self.win[q] = b;
        if q < self.over {
            self.win[4096 + q] = b;
        }
    }
    fn hang(&mut self, p: usize, side: usize, k: usize) {
        self.kid[p][side] = k;
        if k != NIL {
            self.dad[k] = p;
        }
    }
    fn side(&self, k: usize) -> usize {
        (self.kid[self.dad[k]][0] != k) as usize
    }
    fn insert(&mut self, at: usize) {
        let (mut p, mut side) = (4096 + self.win[at] as usize, 1);
        self.kid[at] = [NIL, NIL];
        self.len = 0;
        while self.kid[p][side] != NIL {
            p = self.kid[p][side];
            let n = (1..60).find(|i| self.get(at + i) != self.get(p + i)).unwrap_or(60);
            side = (n == 60 || self.get(at + n) >= self.get(p + n)) as usize;
            if n > 2 {
                let back = (at + 4096 - p) % 4096 - 1;
                if n > self.len {
                    self.len = n;
                    self.off = back;
                    if n == 60 {
                        // takes the place of the other
                        let (up, s) = (self.dad[p], self.side(p));
                        let k = self.kid[p];
                        self.hang(up, s, at);
                        self.hang(at, 0, k[0]);
                        self.hang(at, 1, k[1]);
                        self.dad[p] = NIL;
                        return;
                    }
                } else if n == self.len && back < self.off {
                    self.off = back;
                }
            }
        }
        self.hang(p, side, at);
    }
    fn delete(&mut self, p: usize) {
        if self.dad[p] == NIL {
            return;
        }
        let [l, r] = self.kid[p];
        let q = if l == NIL || r == NIL {
            if l == NIL { r } else { l }
        } else {
            let mut q = l;
            if self.kid[q][1] != NIL {
                while self.kid[q][1] != NIL {
                    q = self.kid[q][1];
                }
                let (up, below) = (self.dad[q], self.kid[q][0]);
                self.hang(up, 1, below);
                self.hang(q, 0, l);
            }
            self.hang(q, 1, r);
            q
        };
        let (up, s) = (self.dad[p], self.side(p));
        self.hang(up, s, q);
        self.dad[p] = NIL;
    }
}
