// ---------------------------------------------------------------- the LZHUF format: what a bit stream denotes

/// one bit; after the end either zeros (`zf`) or nothing
pub open spec fn nb(rest: Seq<bool>, zf: bool) -> Option<(int, Seq<bool>)> {
    if rest.len() > 0 { Some((bitval(rest[0]), rest.skip(1))) } else if zf { Some((0, rest)) } else { None }
}
/// n bits, most significant first
pub open spec fn nbits(rest: Seq<bool>, n: nat, zf: bool) -> Option<(int, Seq<bool>)>
    decreases n
{
    if n == 0 { Some((0, rest)) } else {
        match nbits(rest, (n - 1) as nat, zf) {
            Some((v, r)) => match nb(r, zf) { Some((b, r2)) => Some((2 * v + b, r2)), None => None },
            None => None,
        }
    }
}
/// from the sons of some node down to a leaf: symbol, and the bits behind its code
pub open spec fn huf_walk(t: HT, k: int, rest: Seq<bool>, zf: bool) -> Option<(int, Seq<bool>)>
    decreases (if 0 <= k < t.nn() { k + 1 } else { 0 })
{
    if k < 0 || k >= t.nn() { Some((k - t.nn(), rest)) } else {
        match nb(rest, zf) {
            Some((b, r)) => {
                let q = t.son[k + b] as int;
                if q < t.nn() && q >= k { None } else { huf_walk(t, q, r, zf) }
            },
            None => None,
        }
    }
}
pub open spec fn huf_sym(t: HT, rest: Seq<bool>, zf: bool) -> Option<(int, Seq<bool>)> { huf_walk(t, t.son[t.root()] as int, rest, zf) }
/// position code: length of the code of the upper 6 bits and their value, by the next 8 bits
pub open spec fn pos_len(i: int) -> nat {
    if i < 32 { 3 } else if i < 80 { 4 } else if i < 144 { 5 } else if i < 192 { 6 } else if i < 240 { 7 } else { 8 }
}
pub open spec fn pos_code(i: int) -> int {
    if i < 32 { 0 } else if i < 80 { 1 + (i - 32) / 16 } else if i < 144 { 4 + (i - 80) / 8 } else if i < 192 { 12 + (i - 144) / 4 }
    else if i < 240 { 24 + (i - 192) / 2 } else { 48 + (i - 240) }
}
pub open spec fn huf_pos(rest: Seq<bool>, zf: bool) -> Option<(int, Seq<bool>)> {
    match nbits(rest, 8, zf) {
        Some((i, r)) => match nbits(r, (pos_len(i) - 2) as nat, zf) {
            Some((x, r2)) => Some((64 * pos_code(i) + (i * pow2((pos_len(i) - 2) as nat) + x) % 64, r2)),
            None => None,
        },
        None => None,
    }
}
/// parameters of a stream: window, lookahead, threshold, precursor, zeros after the end, length to produce
pub struct LzP { pub w: int, pub la: int, pub thr: int, pub pre: u8, pub zf: bool, pub max: int }
impl LzP {
    pub open spec fn ok(self) -> bool { self.w <= 4096 && 2 * self.la <= self.w && 0 <= self.thr < self.la && self.thr <= 255 && self.max <= u32::MAX }
    pub open spec fn nsym(self) -> int { 256 + self.la - self.thr }
}
/// the byte d places back: what has been produced, the precursor before that, and zeros in the oldest part of the window
pub open spec fn lz_win(p: LzP, out: Seq<u8>, d: int) -> u8 {
    let k = out.len() - d;
    if k >= 0 { out[k] } else if k >= p.la - p.w { p.pre } else { 0 }
}
pub open spec fn lz_copy(p: LzP, out: Seq<u8>, d: int, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { out } else { let o = lz_copy(p, out, d, (n - 1) as nat); o.push(lz_win(p, o, d)) }
}
pub open spec fn lz_step(p: LzP, t: HT, rest: Seq<bool>, out: Seq<u8>) -> Option<(HT, Seq<bool>, Seq<u8>)> {
    match huf_sym(t, rest, p.zf) {
        Some((c, r1)) => {
            let t1 = ht_update(t, c);
            if c < 256 { Some((t1, r1, out.push(c as u8))) } else {
                match huf_pos(r1, p.zf) {
                    Some((q, r2)) => Some((t1, r2, lz_copy(p, out, q % p.w + 1, (c + p.thr - 255) as nat))),
                    None => None,
                }
            }
        },
        None => None,
    }
}
pub open spec fn lz_run(p: LzP, t: HT, rest: Seq<bool>, out: Seq<u8>) -> Seq<u8>
    decreases (if p.max > out.len() { p.max - out.len() } else { 0 })
{
    if out.len() >= p.max { out } else {
        match lz_step(p, t, rest, out) {
            Some((t1, r1, o1)) => if o1.len() <= out.len() { o1 } else { lz_run(p, t1, r1, o1) },
            None => out,
        }
    }
}
/// the bits not used
pub open spec fn lz_left(p: LzP, t: HT, rest: Seq<bool>, out: Seq<u8>) -> Seq<bool>
    decreases (if p.max > out.len() { p.max - out.len() } else { 0 })
{
    if out.len() >= p.max { rest } else {
        match lz_step(p, t, rest, out) {
            Some((t1, r1, o1)) => if o1.len() <= out.len() { r1 } else { lz_left(p, t1, r1, o1) },
            None => rest,
        }
    }
}
pub open spec fn lz_decode(p: LzP, body: Seq<u8>) -> Seq<u8> {
    lz_run(p, ht_init(p.nsym()), unpack_msb(body), Seq::empty())
}
pub open spec fn lzss_params(o: crate::lzss_huff::Options, max: int) -> LzP {
    LzP { w: o.window_size as int, la: o.lookahead as int, thr: o.threshold as int, pre: o.precursor, zf: false, max }
}
/// what the LZSS/Huffman expander has to produce
pub open spec fn lzhuf_decode(x: Seq<u8>, o: crate::lzss_huff::Options) -> Option<Seq<u8>> {
    if o.header {
        if x.len() < 4 { None } else { Some(lz_decode(lzss_params(o, le_value(x.take(4)) as int), x.skip(4))) }
    } else { Some(lz_decode(lzss_params(o, u32::MAX as int), x)) }
}
pub open spec fn port_params(max: int) -> LzP { LzP { w: 4096, la: 60, thr: 2, pre: 32, zf: true, max } }
pub open spec fn port_decode(x: Seq<u8>) -> Option<Seq<u8>> {
    if x.len() < 4 { None } else { Some(lz_decode(port_params(le_value(x.take(4)) as int), x.skip(4))) }
}
/// number of bytes that hold the bits the decoder uses, with the length header
pub open spec fn port_used(x: Seq<u8>) -> int {
    let b = x.skip(4);
    4 + (8 * b.len() - lz_left(port_params(le_value(x.take(4)) as int), ht_init(314), unpack_msb(b), Seq::empty()).len() + 7) / 8
}

// ---------------------------------------------------------------- lemmas

/// one step down the tree
pub proof fn lemma_walk_step(t: HT, k: int, rest: Seq<bool>, zf: bool)
    requires ht_dims(t), ht_sons(t), is_son(t, k), k < t.nn()
    ensures
        0 <= k, k + 1 < t.nn(),
        nb(rest, zf) matches Some((b, r)) ==> {
            &&& 0 <= b <= 1
            &&& is_son(t, t.son[k + b] as int)
            &&& (t.son[k + b] < t.nn() ==> t.son[k + b] < k)
            &&& huf_walk(t, k, rest, zf) == huf_walk(t, t.son[k + b] as int, r, zf)
        },
        nb(rest, zf) is None ==> huf_walk(t, k, rest, zf) is None,
{
    let p = son_at(t, k);
    assert(is_son_of(t, p, k));
    assert(t.son[p] % 2 == 0 && t.son[p] + 1 < p);
    if let Some((b, r)) = nb(rest, zf) {
        let q = t.son[k + b] as int;
        assert(is_son_of(t, k + b, q));
        assert(t.son[k + b] < t.nn() + t.n);
    }
}
pub open spec fn is_son_of(t: HT, p: int, k: int) -> bool { 0 <= p < t.nn() && t.son[p] == k }
pub open spec fn is_son(t: HT, k: int) -> bool { exists|p: int| is_son_of(t, p, k) }
pub open spec fn son_at(t: HT, k: int) -> int { choose|p: int| is_son_of(t, p, k) }
pub proof fn lemma_walk_start(t: HT)
    requires ht_dims(t)
    ensures is_son(t, t.son[t.root()] as int)
{
    assert(is_son_of(t, t.root(), t.son[t.root()] as int));
}
pub proof fn lemma_son_range(t: HT, k: int)
    requires ht_dims(t), ht_sons(t), is_son(t, k)
    ensures 0 <= k < t.nn() + t.n
{
    let p = son_at(t, k);
    assert(is_son_of(t, p, k));
    assert(t.son[p] < t.nn() + t.n);
}
pub proof fn lemma_nbits_bound(rest: Seq<bool>, n: nat, zf: bool)
    ensures nbits(rest, n, zf) matches Some((v, r)) ==> 0 <= v < pow2(n)
    decreases n
{
    if n > 0 { lemma_nbits_bound(rest, (n - 1) as nat, zf); }
}
pub proof fn lemma_pos_tables(i: int)
    requires 0 <= i < 256
    ensures 3 <= pos_len(i) <= 8, 0 <= pos_code(i) < 64
{}
pub proof fn lemma_ring_mod(x: int, w: int, k: int)
    requires 0 <= x + k * w < w
    ensures x % w == x + k * w
{
    assert(x == (-k) * w + (x + k * w)) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, w, -k, x + k * w);
}
/// (a mod w - d) mod w
pub proof fn lemma_back(pos: int, w: int, d: int)
    requires 0 <= pos < w, 0 <= d <= w
    ensures (pos - d) % w == (if d <= pos { pos - d } else { pos - d + w })
{
    lemma_ring_mod(pos - d, w, if d <= pos { 0 } else { 1 });
}
pub proof fn lemma_copy_len(p: LzP, out: Seq<u8>, d: int, n: nat)
    ensures lz_copy(p, out, d, n).len() == out.len() + n
    decreases n
{
    if n > 0 { lemma_copy_len(p, out, d, (n - 1) as nat); }
}
/// the ring buffer holds the window
pub open spec fn ring_ok(p: LzP, out: Seq<u8>, buf: Seq<u8>, pos: int) -> bool {
    &&& buf.len() == p.w && p.w >= 2 && p.la <= p.w && p.la >= 1
    &&& 0 <= pos < p.w
    &&& pos == (p.w - p.la + out.len()) % p.w
    &&& forall|d: int| 1 <= d <= p.w ==> buf[ring_at(pos, p.w, d)] == #[trigger] lz_win(p, out, d)
}
pub open spec fn ring_at(pos: int, w: int, d: int) -> int { if d <= pos { pos - d } else { pos - d + w } }
pub proof fn lemma_ring_push(p: LzP, out: Seq<u8>, buf: Seq<u8>, pos: int, c: u8)
    requires ring_ok(p, out, buf, pos)
    ensures ring_ok(p, out.push(c), buf.update(pos, c), (pos + 1) % p.w)
{
    let w = p.w;
    let b2 = buf.update(pos, c);
    let p2 = (pos + 1) % w;
    lemma_ring_mod(pos + 1, w, if pos + 1 < w { 0 } else { -1 });
    let a = w - p.la + out.len();
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a, 1, w);
    assert(1int % w == 1) by { lemma_ring_mod(1, w, 0); }
    assert((a + 1) % w == (a % w + 1) % w);
    assert forall|d: int| 1 <= d <= w implies b2[ring_at(p2, w, d)] == #[trigger] lz_win(p, out.push(c), d) by {
        if d > 1 { assert(lz_win(p, out, d - 1) == lz_win(p, out.push(c), d)); }
    }
}
pub proof fn lemma_ring_start(p: LzP, buf: Seq<u8>)
    requires
        p.ok(), buf.len() == p.w,
        forall|i: int| 0 <= i < p.w - p.la ==> buf[i] == p.pre,
        forall|i: int| p.w - p.la <= i < p.w ==> buf[i] == 0,
    ensures ring_ok(p, Seq::empty(), buf, p.w - p.la)
{
    lemma_ring_mod(p.w - p.la, p.w, 0);
}

pub proof fn lemma_nbits_none(rest: Seq<bool>, m: nat, n: nat, zf: bool)
    ensures m <= n && nbits(rest, m, zf) is None ==> nbits(rest, n, zf) is None
    decreases n
{
    if m < n { lemma_nbits_none(rest, m, (n - 1) as nat, zf); }
}
pub proof fn lemma_ring_get(p: LzP, out: Seq<u8>, buf: Seq<u8>, pos: int, q: int)
    requires ring_ok(p, out, buf, pos), 0 <= q
    ensures 0 <= (pos - (q + 1)) % p.w < p.w, buf[(pos - (q + 1)) % p.w] == lz_win(p, out, q % p.w + 1)
{
    let w = p.w;
    let d = q % w + 1;
    let k = q / w + (if d <= pos { 0int } else { 1 });
    assert(q == w * (q / w) + q % w) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, w); }
    assert(pos - (q + 1) + k * w == ring_at(pos, w, d)) by(nonlinear_arith)
        requires q == w * (q / w) + q % w, d == q % w + 1, k == q / w + (if d <= pos { 0int } else { 1 }), ring_at(pos, w, d) == (if d <= pos { pos - d } else { pos - d + w });
    assert(0 <= q % w < w);
    lemma_ring_mod(pos - (q + 1), w, k);
}
/// what expanding a stream of any length leaves
pub proof fn lemma_run_step(p: LzP, t: HT, rest: Seq<bool>, out: Seq<u8>)
    requires p.ok(), out.len() < p.max
    ensures
        lz_step(p, t, rest, out) is None ==> lz_run(p, t, rest, out) == out,
        lz_step(p, t, rest, out) matches Some((t1, r1, o1)) ==> (o1.len() > out.len() ==> lz_run(p, t, rest, out) == lz_run(p, t1, r1, o1)),
{}

pub proof fn lemma_ring_facts(p: LzP, out: Seq<u8>, buf: Seq<u8>, pos: int)
    requires ring_ok(p, out, buf, pos)
    ensures buf.len() == p.w, 0 <= pos < p.w, (pos + 0) % p.w == pos
{
    lemma_ring_mod(pos, p.w, 0);
}
pub proof fn lemma_copy_zero(p: LzP, out: Seq<u8>, d: int)
    ensures lz_copy(p, out, d, 0) == out
{}
pub proof fn lemma_copy_next(p: LzP, out: Seq<u8>, d: int, n: nat)
    ensures lz_copy(p, out, d, n + 1) == lz_copy(p, out, d, n).push(lz_win(p, lz_copy(p, out, d, n), d))
{}
pub proof fn lemma_run_end(p: LzP, t: HT, rest: Seq<bool>, out: Seq<u8>)
    requires out.len() >= p.max
    ensures lz_run(p, t, rest, out) == out
{}

pub proof fn lemma_left_step(p: LzP, t: HT, rest: Seq<bool>, out: Seq<u8>)
    requires p.ok(), out.len() < p.max
    ensures lz_step(p, t, rest, out) matches Some((t1, r1, o1)) ==> (o1.len() > out.len() ==> lz_left(p, t, rest, out) == lz_left(p, t1, r1, o1)),
{}
pub proof fn lemma_left_end(p: LzP, t: HT, rest: Seq<bool>, out: Seq<u8>)
    requires out.len() >= p.max
    ensures lz_left(p, t, rest, out) == rest
{}
/// with zeros after the end there is always a next bit
pub proof fn lemma_nbits_some(rest: Seq<bool>, n: nat)
    ensures nbits(rest, n, true) is Some
    decreases n
{
    if n > 0 { lemma_nbits_some(rest, (n - 1) as nat); }
}
/// positions in a window of 4096 bytes
pub proof fn lemma_port_window(r: int, q: int, s: int)
    requires 0 <= r < 4096, 0 <= q < 4096, 0 <= s
    ensures
        (r + 1) % 4096 == (if r == 4095 { 0 } else { r + 1 }),
        s % 4096 == ring_at(r, 4096, q + 1) ==> (s + 1) % 4096 == ring_at((r + 1) % 4096, 4096, q + 1),
        q % 4096 + 1 == q + 1,
{}
