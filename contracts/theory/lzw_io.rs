// ---------------------------------------------------------------- streams

pub proof fn lemma_placed_append(d0: Seq<u8>, off: int, s: Seq<u8>, d: Seq<u8>, b: Seq<u8>)
    requires placed(d0, off, s, d), off >= 0
    ensures placed(d0, off, s + b, wr(d, off + s.len(), b))
{
    lemma_placed_wr(d0, off, s, d, s.len() as int, b);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_placed_nothing(d0: Seq<u8>, off: int)
    ensures placed(d0, off, Seq::empty(), d0)
{
    reveal(wr);
}
/// on an empty stream
/// what writing does to the rest of the stream
pub broadcast proof fn lemma_wr_shape(d: Seq<u8>, p: int, b: Seq<u8>)
    requires p >= 0
    ensures
        (#[trigger] wr(d, p, b)).len() == (if b.len() == 0 || d.len() > p + b.len() { d.len() as int } else { p + b.len() }),
        forall|i: int| 0 <= i < p && i < d.len() ==> wr(d, p, b)[i] == #[trigger] d[i],
{
    reveal(wr);
}
pub proof fn lemma_placed_all(s: Seq<u8>, d: Seq<u8>)
    requires placed(Seq::empty(), 0, s, d)
    ensures d == s
{
    reveal(wr);
    assert(d =~= s);
}
pub proof fn lemma_coder_start(msb: bool, d0: Seq<u8>, off: int)
    requires off >= 0
    ensures coder_at(msb, d0, off, Seq::empty(), d0, off, Seq::empty())
{
    reveal(coder_at);
    assert(pack(msb, Seq::<bool>::empty()) =~= Seq::<u8>::empty());
    assert(Seq::<bool>::empty().skip(0) =~= Seq::<bool>::empty());
    lemma_placed_nothing(d0, off);
}
pub proof fn lemma_coder_bits(msb: bool, d0: Seq<u8>, off: int, done: Seq<bool>, d: Seq<u8>, p: int, bits: Seq<bool>)
    requires coder_at(msb, d0, off, done, d, p, bits)
    ensures bits.len() == done.len() % 8, bits.len() < 8, p >= 0, p == off + done.len() / 8, pack(msb, done).len() == done.len() / 8 + (if bits.len() == 0 { 0int } else { 1 }),
        bits.len() == 0 ==> bits == Seq::<bool>::empty(),
{
    reveal(coder_at);
    if bits.len() == 0 { assert(bits =~= Seq::<bool>::empty()); }
}
/// the header of a chunk is written over its place holder
pub proof fn lemma_header_fix(msb: bool, d0: Seq<u8>, off: int, done: Seq<bool>, h0: Seq<bool>, h1: Seq<bool>, cb: Seq<bool>, d: Seq<u8>)
    requires
        off >= 0, done.len() % 8 == 0, h0.len() % 8 == 0, h1.len() == h0.len(),
        placed(d0, off, pack(msb, done + h0 + cb), d),
    ensures
        placed(d0, off, pack(msb, done + h1 + cb), wr(d, off + done.len() as int / 8, pack(msb, h1))),
{
    let k = done.len() as int / 8;
    let pd = pack(msb, done);
    let pc = pack(msb, cb);
    lemma_pack_concat(msb, done + h0, cb);
    lemma_pack_concat(msb, done, h0);
    lemma_pack_concat(msb, done + h1, cb);
    lemma_pack_concat(msb, done, h1);
    let s = pack(msb, done + h0 + cb);
    let b = pack(msb, h1);
    assert(s == pd + pack(msb, h0) + pc);
    assert(pack(msb, h0).len() == b.len());
    lemma_placed_wr(d0, off, s, d, k, b);
    assert(s.take(k) =~= pd);
    assert(s.skip(k + b.len()) =~= pc);
    assert(s.take(k) + b + s.skip(k + b.len()) =~= pack(msb, done + h1 + cb));
}

// ---- state of a decoder inside a chunk

pub struct DecSt { pub b: Seq<bool>, pub s: Strings, pub cur: int, pub prev: Option<Seq<u8>>, pub bc: int }
/// decoding the chunk from r1 on is: out with z, then go on from st
pub closed spec fn dec_at(o: crate::lzw::Options, r1: Seq<bool>, lim: Option<int>, z: Seq<u8>, st: DecSt) -> bool {
    dec_chunk(o, r1, lzw_roots(), -1, None, 0, lim) == then(z, dec_chunk(o, st.b, st.s, st.cur, st.prev, st.bc, lim))
}
pub proof fn lemma_dec_at_start(o: crate::lzw::Options, r1: Seq<bool>, lim: Option<int>)
    ensures dec_at(o, r1, lim, Seq::empty(), DecSt { b: r1, s: lzw_roots(), cur: -1, prev: None, bc: 0 })
{
    let dc = dec_chunk(o, r1, lzw_roots(), -1, None, 0, lim);
    if dc is Some { assert(Seq::<u8>::empty() + (dc->0).0 =~= (dc->0).0); }
}
/// the chunk ends here
pub proof fn lemma_dec_at_end(o: crate::lzw::Options, r1: Seq<bool>, lim: Option<int>, z: Seq<u8>, st: DecSt)
    requires dec_at(o, r1, lim, z, st), o.max_code_width >= 1
    ensures
        ({
            let w = o.max_code_width as int;
            let dc = dec_chunk(o, r1, lzw_roots(), -1, None, 0, lim);
            let c = val_of(is_msb(o), st.b.take(w)) as int;
            if lim is Some && st.bc >= lim->0 { dc == Some((z, st.b, false)) }
            else if st.b.len() < w { dc == Some((z, st.b, true)) }
            else if is_stop(o, c) { dc == Some((z, st.b.skip(w), true)) }
            else if is_clear(o, c) { dc == Some((z, st.b.skip(w), false)) }
            else { dec_step(o, c, st.s, st.cur, st.prev) is None ==> dc is None }
        }),
{
    assert(z + Seq::<u8>::empty() =~= z);
}
/// one more code
pub proof fn lemma_dec_at_step(o: crate::lzw::Options, r1: Seq<bool>, lim: Option<int>, z: Seq<u8>, st: DecSt, y: Seq<u8>, s1: Strings, cur1: int)
    requires
        dec_at(o, r1, lim, z, st),
        o.max_code_width >= 1,
        !(lim is Some && st.bc >= lim->0),
        st.b.len() >= o.max_code_width,
        ({
            let c = val_of(is_msb(o), st.b.take(o.max_code_width as int)) as int;
            !is_stop(o, c) && !is_clear(o, c) && dec_step(o, c, st.s, st.cur, st.prev) == Some((y, s1, cur1))
        }),
    ensures
        dec_at(o, r1, lim, z + y, DecSt { b: st.b.skip(o.max_code_width as int), s: s1, cur: cur1, prev: Some(y), bc: st.bc + o.max_code_width }),
{
    let w = o.max_code_width as int;
    let r = dec_chunk(o, st.b.skip(w), s1, cur1, Some(y), st.bc + w, lim);
    if r is Some { assert(z + (y + (r->0).0) =~= z + y + (r->0).0); }
}
/// decoding everything is: out with z, then go on from b
pub closed spec fn dec_rest(o: crate::lzw::Options, tot: Seq<bool>, z: Seq<u8>, b: Seq<bool>) -> bool {
    dec_all(o, tot) == then1(z, dec_all(o, b))
}
pub proof fn lemma_dec_rest_start(o: crate::lzw::Options, tot: Seq<bool>)
    ensures dec_rest(o, tot, Seq::empty(), tot)
{
    if dec_all(o, tot) is Some { assert(Seq::<u8>::empty() + dec_all(o, tot)->0 =~= dec_all(o, tot)->0); }
}
pub open spec fn chunk_lim(o: crate::lzw::Options, b: Seq<bool>) -> Option<int> {
    if o.header_bits > 0 { Some(o.header_divisor * val_of(is_msb(o), b.take(o.header_bits as int))) } else { None }
}
/// no header left
pub proof fn lemma_dec_rest_end(o: crate::lzw::Options, tot: Seq<bool>, z: Seq<u8>, b: Seq<bool>)
    requires dec_rest(o, tot, z, b), o.header_bits > 0, b.len() < o.header_bits
    ensures dec_all(o, tot) == Some(z)
{
    assert(z + Seq::<u8>::empty() =~= z);
}
/// one chunk
pub proof fn lemma_dec_rest_chunk(o: crate::lzw::Options, tot: Seq<bool>, z: Seq<u8>, b: Seq<bool>)
    requires dec_rest(o, tot, z, b), b.len() >= o.header_bits
    ensures
        match dec_chunk(o, b.skip(o.header_bits as int), lzw_roots(), -1, None, 0, chunk_lim(o, b)) {
            None => dec_all(o, tot) is None,
            Some((y, r, e)) => if e { dec_all(o, tot) == Some(z + y) } else { r.len() < b.len() && dec_rest(o, tot, z + y, r) },
        },
{
    let h = o.header_bits as int;
    let lim = chunk_lim(o, b);
    lemma_dec_chunk_pos(o, b.skip(h), lzw_roots(), -1, None, 0, lim);
    if let Some((y, r, e)) = dec_chunk(o, b.skip(h), lzw_roots(), -1, None, 0, lim) {
        if !e && r.len() < b.len() {
            let n = dec_all(o, r);
            if n is Some { assert(z + (y + n->0) =~= z + y + n->0); }
        }
    }
}
/// what one code does to the dictionary of a decoder
pub open spec fn dec_dict(d: Dict, nx: Option<usize>, pc: Option<usize>, p1: Seq<u8>) -> Dict {
    if nx is Some && pc is Some { d.insert((nx->0, usize::MAX), crate::lzw::Link { code: pc->0, sym: p1[0] as usize }) } else { d }
}
pub open spec fn dec_prev(d: Dict, pc: Option<usize>, p: Seq<u8>) -> bool {
    match pc { None => true, Some(c) => d.contains_key((c, usize::MAX)) && p == str_of(d, c) }
}
pub open spec fn prev_of(pc: Option<usize>, p: Seq<u8>) -> Option<Seq<u8>> { match pc { None => None, Some(_) => Some(p) } }
pub open spec fn dec_state(d: Dict, cur: int, pc: Option<usize>, p: Seq<u8>) -> bool { dict_dec(d, cur) && dec_prev(d, pc, p) }
pub proof fn lemma_dec_code(o: crate::lzw::Options, d: Dict, cur: int, pc: Option<usize>, p: Seq<u8>, code: usize, nx: Option<usize>, d1: Dict, p1: Seq<u8>)
    requires
        lzw_opts_ok(o),
        dec_state(d, cur, pc, p),
        cur <= lzw_max(o),
        match nx { None => pc is None || adv_code(o, cur) is None, Some(n) => pc is Some && adv_code(o, cur) == Some(n as int) },
        if d.contains_key((code, usize::MAX)) { p1 == str_of(d, code) } else { nx == Some(code) && p1 == p.push(p[0]) },
        d1 == dec_dict(d, nx, pc, p1),
    ensures
        ({
            let cur1 = if pc is Some { adv_cur(o, cur) } else { cur };
            &&& dec_step(o, code as int, strs(d), cur, prev_of(pc, p)) == Some((p1, strs(d1), cur1))
            &&& dec_state(d1, cur1, Some(code), p1)
            &&& p1.len() >= 1
        }),
{
    reveal(dict_dec);
    lemma_first_free(o, cur + 1);
    assert(strs(d).contains_key(code as int) == str_has(d, code as int));
    if d.contains_key((code, usize::MAX)) { lemma_str_len(d, cur, code); }
    if pc is Some {
        lemma_str_len(d, cur, pc->0);
        assert(str_has(d, (pc->0) as int));
    }
    if nx is Some && pc is Some {
        lemma_strs_insert(d, cur, nx->0, pc->0, p1[0]);
        if code != nx->0 {
            if code < nx->0 { lemma_str_insert(d, nx->0, crate::lzw::Link { code: pc->0, sym: p1[0] as usize }, code); }
            else { assert(d.contains_key((code, usize::MAX))); }
        }
    }
}
pub proof fn lemma_dec_unknown(o: crate::lzw::Options, d: Dict, cur: int, pc: Option<usize>, p: Seq<u8>, code: usize, nx: Option<usize>)
    requires
        !d.contains_key((code, usize::MAX)),
        match nx { None => pc is None || adv_code(o, cur) is None, Some(n) => pc is Some && adv_code(o, cur) == Some(n as int) },
        nx is None || nx->0 != code,
    ensures dec_step(o, code as int, strs(d), cur, prev_of(pc, p)) is None,
{
    assert(strs(d).contains_key(code as int) == str_has(d, code as int));
}

// ---- state of an encoder

pub struct EncSt { pub i: int, pub t: Trie, pub cur: int }
pub open spec fn chunk_of(o: crate::lzw::Options, x: Seq<u8>, i: int) -> (Seq<int>, int, bool) { enc_chunk(o, x, i, IMap::empty(), -1, 0) }
/// the chunk that starts at i0 has these codes so far and goes on from st
pub closed spec fn enc_at(o: crate::lzw::Options, x: Seq<u8>, i0: int, codes: Seq<int>, st: EncSt) -> bool {
    let r = enc_chunk(o, x, st.i, st.t, st.cur, codes.len() as int);
    chunk_of(o, x, i0) == (codes + r.0, r.1, r.2)
}
pub proof fn lemma_enc_at_start(o: crate::lzw::Options, x: Seq<u8>, i0: int)
    ensures enc_at(o, x, i0, Seq::empty(), EncSt { i: i0, t: IMap::empty(), cur: -1 })
{
    let r = chunk_of(o, x, i0);
    assert(Seq::<int>::empty() + r.0 =~= r.0);
}
pub proof fn lemma_enc_at_end(o: crate::lzw::Options, x: Seq<u8>, i0: int, codes: Seq<int>, st: EncSt)
    requires enc_at(o, x, i0, codes, st), st.i >= x.len()
    ensures chunk_of(o, x, i0) == (codes + stop_seq(o), st.i, true)
{
}
pub proof fn lemma_enc_at_match(o: crate::lzw::Options, x: Seq<u8>, i0: int, codes: Seq<int>, st: EncSt, j: int, c: int)
    requires
        enc_at(o, x, i0, codes, st), 0 <= st.i < x.len(),
        longest(st.t, x, st.i + 1, x[st.i] as int) == (j, c),
    ensures
        j >= x.len() ==> chunk_of(o, x, i0) == (codes.push(c) + stop_seq(o), j, true),
        st.i < j < x.len() && codes.len() + 1 >= o.chunk_size ==> chunk_of(o, x, i0) == (codes.push(c) + clear_seq(o), j, false),
        st.i < j < x.len() && codes.len() + 1 < o.chunk_size ==> enc_at(o, x, i0, codes.push(c), EncSt { i: j, t: trie_add(o, st.t, st.cur, c, x[j]), cur: adv_cur(o, st.cur) }),
{
    assert(codes + (seq![c] + stop_seq(o)) =~= codes.push(c) + stop_seq(o));
    assert(codes + (seq![c] + clear_seq(o)) =~= codes.push(c) + clear_seq(o));
    if st.i < j < x.len() && codes.len() + 1 < o.chunk_size {
        let r = enc_chunk(o, x, j, trie_add(o, st.t, st.cur, c, x[j]), adv_cur(o, st.cur), codes.len() as int + 1);
        assert(codes + (seq![c] + r.0) =~= codes.push(c) + r.0);
    }
}
/// the bits of everything are these followed by those of the chunks from i on
pub closed spec fn enc_rest(o: crate::lzw::Options, x: Seq<u8>, done: Seq<bool>, i: int) -> bool {
    done + enc_bits(o, x, i) == enc_bits(o, x, 0)
}
pub proof fn lemma_enc_rest_start(o: crate::lzw::Options, x: Seq<u8>)
    ensures enc_rest(o, x, Seq::empty(), 0)
{
    assert(Seq::<bool>::empty() + enc_bits(o, x, 0) =~= enc_bits(o, x, 0));
}
pub proof fn lemma_enc_rest_chunk(o: crate::lzw::Options, x: Seq<u8>, done: Seq<bool>, i: int)
    requires enc_rest(o, x, done, i), 0 <= i <= x.len()
    ensures
        ({
            let (codes, j, e) = chunk_of(o, x, i);
            let b = done + lzw_header(o, codes.len() as int) + code_bits(o, codes);
            if e { enc_bits(o, x, 0) == b } else { i < j < x.len() && enc_rest(o, x, b, j) }
        }),
{
    let (codes, j, e) = chunk_of(o, x, i);
    lemma_enc_chunk_pos(o, x, i, IMap::empty(), -1, 0);
    let h = lzw_header(o, codes.len() as int);
    let cb = code_bits(o, codes);
    assert(done + (h + cb) =~= done + h + cb);
    if !e {
        let m = enc_bits(o, x, j);
        assert(done + (h + cb + m) =~= done + h + cb + m);
    }
}
/// one code through the bit writer
pub proof fn lemma_coder_code(o: crate::lzw::Options, d0: Seq<u8>, off: int, base: Seq<bool>, codes: Seq<int>, d: Seq<u8>, p: int, bits: Seq<bool>, c: int)
    requires coder_at(is_msb(o), d0, off, base + code_bits(o, codes), d, p, bits)
    ensures
        ({
            let msb = is_msb(o);
            let all = bits + bits_of(msb, c as nat, o.max_code_width as nat);
            let k = all.len() as int / 8;
            coder_at(msb, d0, off, base + code_bits(o, codes.push(c)), wr(d, p, pack(msb, all)), p + k, all.skip(8 * k))
        }),
{
    let new = bits_of(is_msb(o), c as nat, o.max_code_width as nat);
    lemma_coder_put(is_msb(o), d0, off, base + code_bits(o, codes), d, p, bits, new);
    lemma_code_bits_push(o, codes, c);
    assert(base + code_bits(o, codes) + new =~= base + code_bits(o, codes.push(c)));
}
/// all codes of a chunk are out: the header replaces its place holder
pub proof fn lemma_chunk_header(o: crate::lzw::Options, d0: Seq<u8>, off: int, done: Seq<bool>, h0: Seq<bool>, codes: Seq<int>, d: Seq<u8>, p: int, bits: Seq<bool>)
    requires
        lzw_compress_ok(o), off >= 0, o.header_bits > 0,
        done.len() % 8 == 0, h0.len() == o.header_bits,
        coder_at(is_msb(o), d0, off, done + h0 + code_bits(o, codes), d, p, bits),
    ensures
        lzw_header(o, codes.len() as int).len() == o.header_bits,
        coder_at(is_msb(o), d0, off, done + lzw_header(o, codes.len() as int) + code_bits(o, codes),
            wr(d, off + done.len() as int / 8, pack(is_msb(o), lzw_header(o, codes.len() as int))), p, bits),
{
    reveal(coder_at);
    let h1 = lzw_header(o, codes.len() as int);
    lemma_bits_len(is_msb(o), (codes.len() * o.max_code_width / (o.header_divisor as int)) as nat, o.header_bits as nat);
    let cb = code_bits(o, codes);
    lemma_header_fix(is_msb(o), d0, off, done, h0, h1, cb, d);
    let a = done + h0 + cb;
    let b = done + h1 + cb;
    assert(a.len() == b.len());
    let m = 8 * (a.len() as int / 8);
    // header and the bits before it fill whole bytes
    if m >= done.len() + h0.len() { assert(a.skip(m) =~= b.skip(m)); }
}
/// chunks that are followed by others end on a byte boundary if there are headers
pub proof fn lemma_chunk_aligned(o: crate::lzw::Options, x: Seq<u8>, i: int)
    requires lzw_compress_ok(o), 0 <= i <= x.len(), !chunk_of(o, x, i).2
    ensures o.header_bits > 0 ==> code_bits(o, chunk_of(o, x, i).0).len() % 8 == 0
{
    lemma_enc_chunk_pos(o, x, i, IMap::empty(), -1, 0);
    lemma_code_bits_len(o, chunk_of(o, x, i).0);
}
/// where the stream ends
pub proof fn lemma_coder_end(msb: bool, d0: Seq<u8>, off: int, done: Seq<bool>, d: Seq<u8>, p: int, bits: Seq<bool>)
    requires coder_at(msb, d0, off, done, d, p, bits)
    ensures
        placed(d0, off, pack(msb, done), d),
        off + pack(msb, done).len() == p + (if bits.len() == 0 { 0int } else { 1 }),
        bits.len() < 8, 0 <= off <= p,
{
    reveal(coder_at);
    lemma_coder_bits(msb, d0, off, done, d, p, bits);
}
/// what was placed can be read back from there, if nothing older lies behind it
pub proof fn lemma_placed_body(d0: Seq<u8>, off: u64, s: Seq<u8>, d: Seq<u8>)
    requires placed(d0, off as int, s, d), d0.len() <= off + s.len(), s.len() > 0
    ensures body(d, off) == s, off <= d.len()
{
    reveal(wr);
    assert(body(d, off) =~= s);
}

// ---- only the format options matter

pub proof fn lemma_code_bits_format(o: crate::lzw::Options, p: crate::lzw::Options, c: Seq<int>)
    requires crate::lzw::same_format(o, p)
    ensures code_bits(o, c) == code_bits(p, c)
    decreases c.len()
{
    if c.len() > 0 { lemma_code_bits_format(o, p, c.skip(1)); }
}
pub proof fn lemma_enc_chunk_format(o: crate::lzw::Options, p: crate::lzw::Options, x: Seq<u8>, i: int, t: Trie, cur: int, cnt: int)
    requires crate::lzw::same_format(o, p)
    ensures enc_chunk(o, x, i, t, cur, cnt) == enc_chunk(p, x, i, t, cur, cnt)
    decreases x.len() - i
{
    if 0 <= i < x.len() {
        let (j, c) = longest(t, x, i + 1, x[i] as int);
        if i < j < x.len() { lemma_enc_chunk_format(o, p, x, j, trie_add(o, t, cur, c, x[j]), adv_cur(o, cur), cnt + 1); }
    }
}
pub proof fn lemma_enc_bits_format(o: crate::lzw::Options, p: crate::lzw::Options, x: Seq<u8>, i: int)
    requires crate::lzw::same_format(o, p)
    ensures enc_bits(o, x, i) == enc_bits(p, x, i)
    decreases x.len() - i
{
    lemma_enc_chunk_format(o, p, x, i, IMap::empty(), -1, 0);
    let (codes, j, e) = enc_chunk(o, x, i, IMap::empty(), -1, 0);
    lemma_code_bits_format(o, p, codes);
    if !(e || j <= i || j > x.len()) { lemma_enc_bits_format(o, p, x, j); }
}
pub proof fn lemma_dec_chunk_format(o: crate::lzw::Options, p: crate::lzw::Options, b: Seq<bool>, s: Strings, cur: int, prev: Option<Seq<u8>>, bc: int, lim: Option<int>)
    requires crate::lzw::same_format(o, p)
    ensures dec_chunk(o, b, s, cur, prev, bc, lim) == dec_chunk(p, b, s, cur, prev, bc, lim)
    decreases b.len()
{
    let w = o.max_code_width as int;
    if !(lim is Some && bc >= lim->0) && !(w == 0 || b.len() < w) {
        let c = val_of(is_msb(o), b.take(w)) as int;
        if !is_stop(o, c) && !is_clear(o, c) {
            assert(dec_step(o, c, s, cur, prev) == dec_step(p, c, s, cur, prev));
            if let Some((z, s1, cur1)) = dec_step(o, c, s, cur, prev) {
                lemma_dec_chunk_format(o, p, b.skip(w), s1, cur1, Some(z), bc + w, lim);
            }
        }
    }
}
pub proof fn lemma_dec_all_format(o: crate::lzw::Options, p: crate::lzw::Options, b: Seq<bool>)
    requires crate::lzw::same_format(o, p)
    ensures dec_all(o, b) == dec_all(p, b)
    decreases b.len()
{
    let h = o.header_bits as int;
    let lim = if h > 0 { Some(o.header_divisor * val_of(is_msb(o), b.take(h))) } else { None };
    lemma_dec_chunk_format(o, p, b.skip(h), lzw_roots(), -1, None, 0, lim);
    if !(h > 0 && b.len() < h) {
        if let Some((z, r, e)) = dec_chunk(o, b.skip(h), lzw_roots(), -1, None, 0, lim) {
            if !(e || r.len() >= b.len()) { lemma_dec_all_format(o, p, r); }
        }
    }
}
