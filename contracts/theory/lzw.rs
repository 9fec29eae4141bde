// ---------------------------------------------------------------- the LZW format

pub open spec fn is_msb(o: crate::lzw::Options) -> bool { o.ord == crate::BitOrder::Msb0 }
pub open spec fn lzw_max(o: crate::lzw::Options) -> int { pow2(o.max_code_width as nat) - 1 }
pub open spec fn is_clear(o: crate::lzw::Options, n: int) -> bool { o.clear_code matches Some(c) && c == n }
pub open spec fn is_stop(o: crate::lzw::Options, n: int) -> bool { o.stop_code matches Some(c) && c == n }
/// codes that never stand for a match
pub open spec fn lzw_reserved(o: crate::lzw::Options, n: int) -> bool { n <= 255 || is_clear(o, n) || is_stop(o, n) }
/// the first code from n on that can stand for a match
pub open spec fn first_free(o: crate::lzw::Options, n: int) -> int {
    let a = if n <= 255 { 256 } else { n };
    let b = if lzw_reserved(o, a) { a + 1 } else { a };
    if lzw_reserved(o, b) { b + 1 } else { b }
}
pub open spec fn cur_of(c: Option<usize>) -> int { match c { None => -1, Some(v) => v as int } }
/// the code after `cur`, if the width allows one
pub open spec fn adv_code(o: crate::lzw::Options, cur: int) -> Option<int> {
    let n = first_free(o, cur + 1);
    if n > lzw_max(o) { None } else { Some(n) }
}
pub open spec fn adv_cur(o: crate::lzw::Options, cur: int) -> int {
    match adv_code(o, cur) { None => lzw_max(o), Some(n) => n }
}
pub proof fn lemma_first_free(o: crate::lzw::Options, n: int)
    requires lzw_opts_ok(o)
    ensures
        first_free(o, n) >= n, first_free(o, n) > 255, !lzw_reserved(o, first_free(o, n)),
        first_free(o, n) <= (if n <= 255 { 256 } else { n }) + 2,
        lzw_reserved(o, n) ==> first_free(o, n) == first_free(o, n + 1),
        n <= 255 ==> first_free(o, n) == first_free(o, 256),
        !lzw_reserved(o, n) ==> first_free(o, n) == n,
{
}

// ---- encoder

/// strings known to the encoder: (code of the string without its last symbol, last symbol) -> code
pub type Trie = IMap<(int, u8), int>;

/// from position i with the match c: where the longest match ends, and its code
pub open spec fn longest(t: Trie, x: Seq<u8>, i: int, c: int) -> (int, int)
    decreases x.len() - i
{
    if 0 <= i < x.len() && t.contains_key((c, x[i])) { longest(t, x, i + 1, t[(c, x[i])]) } else { (i, c) }
}
pub open spec fn stop_seq(o: crate::lzw::Options) -> Seq<int> { match o.stop_code { Some(c) => seq![c as int], None => Seq::empty() } }
pub open spec fn clear_seq(o: crate::lzw::Options) -> Seq<int> { match o.clear_code { Some(c) => seq![c as int], None => Seq::empty() } }
pub open spec fn trie_add(o: crate::lzw::Options, t: Trie, cur: int, c: int, s: u8) -> Trie {
    match adv_code(o, cur) { Some(n) => t.insert((c, s), n), None => t }
}
/// codes of a chunk from position i on (`cnt` codes of it are out), where the next chunk starts, and whether this is the last
pub open spec fn enc_chunk(o: crate::lzw::Options, x: Seq<u8>, i: int, t: Trie, cur: int, cnt: int) -> (Seq<int>, int, bool)
    decreases x.len() - i
{
    if i < 0 || i >= x.len() {
        (stop_seq(o), i, true)
    } else {
        let (j, c) = longest(t, x, i + 1, x[i] as int);
        if j >= x.len() {
            (seq![c] + stop_seq(o), j, true)
        } else if j <= i {
            (seq![c], j, true)
        } else if cnt + 1 >= o.chunk_size {
            (seq![c] + clear_seq(o), j, false)
        } else {
            let (r, k, e) = enc_chunk(o, x, j, trie_add(o, t, cur, c, x[j]), adv_cur(o, cur), cnt + 1);
            (seq![c] + r, k, e)
        }
    }
}
pub open spec fn code_bits(o: crate::lzw::Options, codes: Seq<int>) -> Seq<bool>
    decreases codes.len()
{
    if codes.len() == 0 { Seq::empty() } else { bits_of(is_msb(o), codes[0] as nat, o.max_code_width as nat) + code_bits(o, codes.skip(1)) }
}
pub open spec fn lzw_header(o: crate::lzw::Options, n: int) -> Seq<bool> {
    if o.header_bits == 0 { Seq::empty() } else { bits_of(is_msb(o), (n * o.max_code_width / (o.header_divisor as int)) as nat, o.header_bits as nat) }
}
pub open spec fn enc_bits(o: crate::lzw::Options, x: Seq<u8>, i: int) -> Seq<bool>
    decreases x.len() - i
{
    let (codes, j, e) = enc_chunk(o, x, i, IMap::empty(), -1, 0);
    let b = lzw_header(o, codes.len() as int) + code_bits(o, codes);
    if e || j <= i || j > x.len() { b } else { b + enc_bits(o, x, j) }
}
pub open spec fn lzw_encode(x: Seq<u8>, o: crate::lzw::Options) -> Seq<u8> { pack(is_msb(o), enc_bits(o, x, 0)) }

// ---- decoder

pub type Strings = IMap<int, Seq<u8>>;
pub open spec fn lzw_roots() -> Strings { IMap::new(|c: int| 0 <= c <= 255, |c: int| seq![c as u8]) }

pub open spec fn then<A, B>(z: Seq<u8>, r: Option<(Seq<u8>, A, B)>) -> Option<(Seq<u8>, A, B)> {
    match r { None => None, Some((y, a, b)) => Some((z + y, a, b)) }
}
pub open spec fn then1(z: Seq<u8>, r: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match r { None => None, Some(y) => Some(z + y) }
}
/// decode the rest of a chunk: the symbols, the bits behind it, and whether the data ended;
/// `bc` bits of the chunk are gone, `lim` is what its header says; None: a code that cannot be
pub open spec fn dec_chunk(o: crate::lzw::Options, b: Seq<bool>, s: Strings, cur: int, prev: Option<Seq<u8>>, bc: int, lim: Option<int>) -> Option<(Seq<u8>, Seq<bool>, bool)>
    decreases b.len()
{
    let w = o.max_code_width as int;
    if lim is Some && bc >= lim->0 {
        Some((Seq::empty(), b, false))
    } else if w == 0 || b.len() < w {
        Some((Seq::empty(), b, true))
    } else {
        let c = val_of(is_msb(o), b.take(w)) as int;
        let r = b.skip(w);
        if is_stop(o, c) {
            Some((Seq::empty(), r, true))
        } else if is_clear(o, c) {
            Some((Seq::empty(), r, false))
        } else {
            match dec_step(o, c, s, cur, prev) {
                None => None,
                Some((z, s1, cur1)) => then(z, dec_chunk(o, r, s1, cur1, Some(z), bc + w, lim)),
            }
        }
    }
}
/// one code: its string, and the strings known afterwards
pub open spec fn dec_step(o: crate::lzw::Options, c: int, s: Strings, cur: int, prev: Option<Seq<u8>>) -> Option<(Seq<u8>, Strings, int)> {
    match prev {
        None => if s.contains_key(c) { Some((s[c], s, cur)) } else { None },
        Some(p) => {
            let nx = adv_code(o, cur);
            let cur1 = adv_cur(o, cur);
            if s.contains_key(c) {
                Some((s[c], if nx is Some { s.insert(nx->0, p.push(s[c][0])) } else { s }, cur1))
            } else if nx == Some(c) {
                Some((p.push(p[0]), s.insert(c, p.push(p[0])), cur1))
            } else {
                None
            }
        },
    }
}
pub open spec fn dec_all(o: crate::lzw::Options, b: Seq<bool>) -> Option<Seq<u8>>
    decreases b.len()
{
    let h = o.header_bits as int;
    if h > 0 && b.len() < h {
        Some(Seq::empty())
    } else {
        let lim = if h > 0 { Some(o.header_divisor * val_of(is_msb(o), b.take(h))) } else { None };
        match dec_chunk(o, b.skip(h), lzw_roots(), -1, None, 0, lim) {
            None => None,
            Some((z, r, e)) => if e || r.len() >= b.len() { Some(z) } else { then1(z, dec_all(o, r)) },
        }
    }
}
pub open spec fn lzw_decode(x: Seq<u8>, o: crate::lzw::Options) -> Option<Seq<u8>> { dec_all(o, unpack(is_msb(o), x)) }

/// what decoding relies on when the options came from outside: see `lzw_opts_ok`; compression needs more
pub open spec fn lzw_compress_ok(o: crate::lzw::Options) -> bool {
    &&& lzw_opts_ok(o)
    &&& o.header_bits % 8 == 0
    &&& o.header_bits > 0 ==> (o.chunk_size + clear_seq(o).len()) * o.max_code_width % 8 == 0
}
/// the options say enough for a decoder to find the end of a chunk
pub open spec fn lzw_lossless(o: crate::lzw::Options) -> bool {
    &&& lzw_compress_ok(o)
    &&& o.header_bits > 0 || o.clear_code is Some
    &&& o.header_divisor <= o.max_code_width
    &&& o.header_bits > 0 ==> (o.chunk_size + 1) * o.max_code_width / (o.header_divisor as int) < pow2(o.header_bits as nat)
}

// ---- lemmas

pub proof fn lemma_code_bits_len(o: crate::lzw::Options, codes: Seq<int>)
    ensures code_bits(o, codes).len() == codes.len() * o.max_code_width
    decreases codes.len()
{
    if codes.len() > 0 {
        lemma_code_bits_len(o, codes.skip(1));
        lemma_bits_len(is_msb(o), codes[0] as nat, o.max_code_width as nat);
        assert(codes.len() * o.max_code_width == o.max_code_width + (codes.len() - 1) * o.max_code_width) by(nonlinear_arith);
    } else {
        assert(codes.len() * o.max_code_width == 0) by(nonlinear_arith) requires codes.len() == 0;
    }
}
pub proof fn lemma_code_bits_concat(o: crate::lzw::Options, a: Seq<int>, b: Seq<int>)
    ensures code_bits(o, a + b) == code_bits(o, a) + code_bits(o, b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(code_bits(o, a) + code_bits(o, b) =~= code_bits(o, b));
    } else {
        lemma_code_bits_concat(o, a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b)[0] == a[0]);
        let h = bits_of(is_msb(o), a[0] as nat, o.max_code_width as nat);
        assert(h + (code_bits(o, a.skip(1)) + code_bits(o, b)) =~= (h + code_bits(o, a.skip(1))) + code_bits(o, b));
    }
}
pub proof fn lemma_code_bits_one(o: crate::lzw::Options, c: int)
    ensures code_bits(o, seq![c]) == bits_of(is_msb(o), c as nat, o.max_code_width as nat)
{
    assert(seq![c].skip(1) =~= Seq::<int>::empty());
    assert(code_bits(o, Seq::<int>::empty()) =~= Seq::<bool>::empty());
    let h = bits_of(is_msb(o), c as nat, o.max_code_width as nat);
    assert(seq![c][0] == c);
    assert(h + Seq::<bool>::empty() =~= h);
}
pub proof fn lemma_code_bits_push(o: crate::lzw::Options, a: Seq<int>, c: int)
    ensures code_bits(o, a.push(c)) == code_bits(o, a) + bits_of(is_msb(o), c as nat, o.max_code_width as nat)
{
    lemma_code_bits_concat(o, a, seq![c]);
    lemma_code_bits_one(o, c);
    assert(a.push(c) =~= a + seq![c]);
}
pub proof fn lemma_longest_pos(t: Trie, x: Seq<u8>, i: int, c: int)
    requires 0 <= i <= x.len()
    ensures i <= longest(t, x, i, c).0 <= x.len()
    decreases x.len() - i
{
    if i < x.len() && t.contains_key((c, x[i])) { lemma_longest_pos(t, x, i + 1, t[(c, x[i])]); }
}
pub proof fn lemma_enc_chunk_pos(o: crate::lzw::Options, x: Seq<u8>, i: int, t: Trie, cur: int, cnt: int)
    requires 0 <= i <= x.len()
    ensures
        ({
            let (codes, j, e) = enc_chunk(o, x, i, t, cur, cnt);
            &&& i <= j <= x.len()
            &&& !e ==> i < j < x.len()
            &&& !e ==> codes.len() == (if cnt + 1 >= o.chunk_size { 1 } else { o.chunk_size - cnt }) + clear_seq(o).len()
            &&& codes.len() <= (if cnt + 1 >= o.chunk_size { 1 } else { o.chunk_size - cnt }) + 1
            &&& e ==> j == x.len()
            &&& codes.len() <= x.len() - i + 1
        }),
    decreases x.len() - i
{
    if i < x.len() {
        lemma_longest_pos(t, x, i + 1, x[i] as int);
        let (j, c) = longest(t, x, i + 1, x[i] as int);
        if j < x.len() && cnt + 1 < o.chunk_size {
            lemma_enc_chunk_pos(o, x, j, trie_add(o, t, cur, c, x[j]), adv_cur(o, cur), cnt + 1);
        }
    }
}
pub proof fn lemma_dec_chunk_pos(o: crate::lzw::Options, b: Seq<bool>, s: Strings, cur: int, prev: Option<Seq<u8>>, bc: int, lim: Option<int>)
    ensures
        dec_chunk(o, b, s, cur, prev, bc, lim) matches Some((z, r, e)) ==> r.len() <= b.len() && (!e && lim is None ==> r.len() < b.len()),
    decreases b.len()
{
    let w = o.max_code_width as int;
    if !(lim is Some && bc >= lim->0) && !(w == 0 || b.len() < w) {
        let c = val_of(is_msb(o), b.take(w)) as int;
        if !is_stop(o, c) && !is_clear(o, c) {
            if let Some((z, s1, cur1)) = dec_step(o, c, s, cur, prev) {
                lemma_dec_chunk_pos(o, b.skip(w), s1, cur1, Some(z), bc + w, lim);
            }
        }
    }
}

// ---- decoding what was encoded

/// the strings the encoder's codes stand for
pub open spec fn trie_strings(o: crate::lzw::Options, t: Trie, s: Strings, cur: int) -> bool {
    &&& -1 <= cur <= lzw_max(o)
    &&& forall|c: int| 0 <= c <= 255 ==> #[trigger] s.contains_key(c) && s[c] == seq![c as u8]
    &&& forall|c: int| #[trigger] s.contains_key(c) ==> 0 <= c <= lzw_max(o) && s[c].len() >= 1 && (c <= 255 || (c <= cur && !lzw_reserved(o, c)))
    &&& forall|b: int, y: u8| #[trigger] t.contains_key((b, y)) ==> s.contains_key(b) && s.contains_key(t[(b, y)]) && s[t[(b, y)]] == s[b].push(y)
}
/// the decoder is one string behind
pub open spec fn dec_behind(o: crate::lzw::Options, next: Option<u8>, sd: Strings, curd: int, prev: Option<Seq<u8>>, se: Strings, cure: int) -> bool {
    match prev {
        None => sd == se && curd == cure,
        Some(p) => {
            &&& p.len() >= 1
            &&& -1 <= curd <= lzw_max(o)
            &&& cure == adv_cur(o, curd)
            &&& match adv_code(o, curd) {
                None => se == sd,
                Some(n) => next matches Some(y) && se == sd.insert(n, p.push(y)) && !sd.contains_key(n),
            }
        },
    }
}
pub proof fn lemma_longest_string(o: crate::lzw::Options, t: Trie, s: Strings, cur: int, x: Seq<u8>, i0: int, i: int, c: int)
    requires
        trie_strings(o, t, s, cur),
        0 <= i0 < i <= x.len(),
        s.contains_key(c),
        s[c] == x.subrange(i0, i),
    ensures
        ({
            let (j, k) = longest(t, x, i, c);
            &&& i <= j <= x.len()
            &&& s.contains_key(k)
            &&& s[k] == x.subrange(i0, j)
            &&& j < x.len() ==> !t.contains_key((k, x[j]))
        }),
    decreases x.len() - i
{
    if i < x.len() && t.contains_key((c, x[i])) {
        assert(x.subrange(i0, i).push(x[i]) =~= x.subrange(i0, i + 1));
        lemma_longest_string(o, t, s, cur, x, i0, i + 1, t[(c, x[i])]);
    }
}
/// one code out of the encoder brings the decoder up to where the encoder was
#[verifier::spinoff_prover]
pub proof fn lemma_step(o: crate::lzw::Options, t: Trie, se: Strings, cure: int, x: Seq<u8>, i: int, sd: Strings, curd: int, prev: Option<Seq<u8>>)
    requires
        lzw_opts_ok(o),
        trie_strings(o, t, se, cure),
        0 <= i < x.len(),
        dec_behind(o, Some(x[i]), sd, curd, prev, se, cure),
    ensures
        ({
            let (j, c) = longest(t, x, i + 1, x[i] as int);
            &&& i < j <= x.len()
            &&& 0 <= c <= lzw_max(o) && !is_stop(o, c) && !is_clear(o, c)
            &&& dec_step(o, c, sd, curd, prev) == Some((x.subrange(i, j), se, cure))
            &&& j < x.len() ==> {
                let t1 = trie_add(o, t, cure, c, x[j]);
                let se1 = match adv_code(o, cure) { Some(n) => se.insert(n, x.subrange(i, j).push(x[j])), None => se };
                &&& trie_strings(o, t1, se1, adv_cur(o, cure))
                &&& dec_behind(o, Some(x[j]), se, cure, Some(x.subrange(i, j)), se1, adv_cur(o, cure))
            }
        }),
{
    let x0 = x[i] as int;
    assert(se.contains_key(x0));
    assert(seq![x0 as u8] =~= x.subrange(i, i + 1));
    lemma_longest_string(o, t, se, cure, x, i, i + 1, x0);
    let (j, c) = longest(t, x, i + 1, x0);
    let z = x.subrange(i, j);
    assert(z[0] == x[i]);
    lemma_step_dec(o, c, x[i], z, sd, curd, prev, se, cure);
    lemma_pow2_mono(9, o.max_code_width as nat);
    lemma_pow2_values();
    if j < x.len() { lemma_step_trie(o, t, se, cure, c, x[j]); }
}
pub proof fn lemma_step_dec(o: crate::lzw::Options, c: int, y: u8, z: Seq<u8>, sd: Strings, curd: int, prev: Option<Seq<u8>>, se: Strings, cure: int)
    requires
        dec_behind(o, Some(y), sd, curd, prev, se, cure),
        se.contains_key(c), z == se[c], z.len() >= 1, z[0] == y,
    ensures
        dec_step(o, c, sd, curd, prev) == Some((z, se, cure)),
{
    match prev {
        None => {},
        Some(p) => {
            match adv_code(o, curd) {
                None => {},
                Some(n) => {
                    assert(se == sd.insert(n, p.push(y)));
                    if c == n {
                        assert(!sd.contains_key(c));
                        assert(se[c] == p.push(y));
                        assert(z == p.push(y));
                        assert(z[0] == p[0]);
                        assert(p.push(p[0]) == z);
                    } else {
                        assert(sd.contains_key(c));
                        assert(sd[c] == z);
                    }
                },
            }
        },
    }
}
pub proof fn lemma_step_trie(o: crate::lzw::Options, t: Trie, se: Strings, cure: int, c: int, y: u8)
    requires
        lzw_opts_ok(o),
        trie_strings(o, t, se, cure),
        se.contains_key(c),
        !t.contains_key((c, y)),
    ensures
        ({
            let z = se[c];
            let t1 = trie_add(o, t, cure, c, y);
            let se1 = match adv_code(o, cure) { Some(n) => se.insert(n, z.push(y)), None => se };
            &&& trie_strings(o, t1, se1, adv_cur(o, cure))
            &&& dec_behind(o, Some(y), se, cure, Some(z), se1, adv_cur(o, cure))
        }),
{
    lemma_first_free(o, cure + 1);
    lemma_pow2_mono(9, o.max_code_width as nat);
    lemma_pow2_values();
    let z = se[c];
    match adv_code(o, cure) {
        None => {
            assert(trie_strings(o, t, se, lzw_max(o)));
        },
        Some(n) => {
            let se1 = se.insert(n, z.push(y));
            let t1 = t.insert((c, y), n);
            assert(!se.contains_key(n));
            assert forall|d: int| 0 <= d <= 255 implies #[trigger] se1.contains_key(d) && se1[d] == seq![d as u8] by { assert(se.contains_key(d)); }
            assert forall|d: int| #[trigger] se1.contains_key(d) implies 0 <= d <= lzw_max(o) && se1[d].len() >= 1 && (d <= 255 || (d <= n && !lzw_reserved(o, d))) by {
                if d != n { assert(se.contains_key(d)); }
            }
            assert forall|b: int, v: u8| #[trigger] t1.contains_key((b, v)) implies se1.contains_key(b) && se1.contains_key(t1[(b, v)]) && se1[t1[(b, v)]] == se1[b].push(v) by {
                if (b, v) == (c, y) {
                    assert(c != n);
                } else {
                    assert(t.contains_key((b, v)));
                    assert(t1[(b, v)] == t[(b, v)]);
                    assert(b != n && t[(b, v)] != n);
                }
            }
        },
    }
}
pub proof fn lemma_code_at(o: crate::lzw::Options, c: int, rest: Seq<bool>)
    requires lzw_opts_ok(o), 0 <= c <= lzw_max(o)
    ensures
        ({
            let w = o.max_code_width as int;
            let b = bits_of(is_msb(o), c as nat, w as nat) + rest;
            b.len() == w + rest.len() && b.take(w) == bits_of(is_msb(o), c as nat, w as nat) && val_of(is_msb(o), b.take(w)) == c && b.skip(w) == rest
        }),
{
    let w = o.max_code_width as int;
    lemma_bits_val(is_msb(o), c as nat, w as nat);
    let b = bits_of(is_msb(o), c as nat, w as nat) + rest;
    assert(b.take(w) =~= bits_of(is_msb(o), c as nat, w as nat));
    assert(b.skip(w) =~= rest);
}
/// a chunk comes back; `tot` codes are in the whole chunk, `cnt` of them are gone
#[verifier::spinoff_prover]
pub proof fn lemma_chunk(o: crate::lzw::Options, x: Seq<u8>, i: int, t: Trie, cure: int, cnt: int, se: Strings, sd: Strings, curd: int, prev: Option<Seq<u8>>,
    lim: Option<int>, tot: int, tail: Seq<bool>)
    requires
        lzw_lossless(o),
        0 <= i <= x.len(), cnt >= 0, cnt < o.chunk_size,
        trie_strings(o, t, se, cure),
        dec_behind(o, if i < x.len() { Some(x[i]) } else { None }, sd, curd, prev, se, cure) || i == x.len(),
        tot == cnt + enc_chunk(o, x, i, t, cure, cnt).0.len(),
        lim is Some <==> o.header_bits > 0,
        lim is Some ==> (tot - 1) * o.max_code_width < lim->0 <= tot * o.max_code_width,
        lim is None && enc_chunk(o, x, i, t, cure, cnt).2 ==> tail.len() < 8,
    ensures
        ({
            let (codes, j, e) = enc_chunk(o, x, i, t, cure, cnt);
            dec_chunk(o, code_bits(o, codes) + tail, sd, curd, prev, cnt * o.max_code_width, lim) matches Some((z, r, ee))
                && z == x.subrange(i, j) && r == tail && (e ==> ee || lim is Some) && (!e ==> !ee)
        }),
    decreases x.len() - i
{
    let (codes, j, e) = enc_chunk(o, x, i, t, cure, cnt);
    let w = o.max_code_width as int;
    let b = code_bits(o, codes) + tail;
    lemma_pow2_mono(9, o.max_code_width as nat);
    lemma_pow2_values();
    if i >= x.len() {
        lemma_stop(o, sd, curd, prev, cnt, lim, tot, tail);
        assert(x.subrange(i, j) =~= Seq::<u8>::empty());
    } else {
        lemma_step(o, t, se, cure, x, i, sd, curd, prev);
        let (m, c) = longest(t, x, i + 1, x[i] as int);
        let rest = codes.skip(1);
        assert(codes[0] == c);
        assert(code_bits(o, codes) == bits_of(is_msb(o), c as nat, w as nat) + code_bits(o, rest));
        assert(b =~= bits_of(is_msb(o), c as nat, w as nat) + (code_bits(o, rest) + tail));
        lemma_code_at(o, c, code_bits(o, rest) + tail);
        assert(cnt * w <= (tot - 1) * w) by(nonlinear_arith) requires cnt <= tot - 1, w >= 0;
        assert(cnt * w + w == (cnt + 1) * w) by(nonlinear_arith);
        let z = x.subrange(i, m);
        if m >= x.len() {
            assert(rest =~= stop_seq(o));
            lemma_stop(o, se, cure, Some(z), cnt + 1, lim, tot, tail);
            assert(z + Seq::<u8>::empty() =~= z);
        } else if cnt + 1 >= o.chunk_size {
            assert(rest =~= clear_seq(o));
            lemma_clear(o, se, cure, Some(z), cnt + 1, lim, tot, tail);
            assert(z + Seq::<u8>::empty() =~= z);
        } else {
            let t1 = trie_add(o, t, cure, c, x[m]);
            let se1 = match adv_code(o, cure) { Some(n) => se.insert(n, z.push(x[m])), None => se };
            assert(rest =~= enc_chunk(o, x, m, t1, adv_cur(o, cure), cnt + 1).0);
            lemma_chunk(o, x, m, t1, adv_cur(o, cure), cnt + 1, se1, se, cure, Some(z), lim, tot, tail);
            lemma_enc_chunk_pos(o, x, m, t1, adv_cur(o, cure), cnt + 1);
            assert(z + x.subrange(m, j) =~= x.subrange(i, j));
        }
    }
}
/// the end of the last chunk
pub proof fn lemma_stop(o: crate::lzw::Options, sd: Strings, curd: int, prev: Option<Seq<u8>>, cnt: int, lim: Option<int>, tot: int, tail: Seq<bool>)
    requires
        lzw_lossless(o),
        tot == cnt + stop_seq(o).len(),
        lim is Some <==> o.header_bits > 0,
        lim is Some ==> (tot - 1) * o.max_code_width < lim->0 <= tot * o.max_code_width,
        lim is None ==> tail.len() < 8,
    ensures
        dec_chunk(o, code_bits(o, stop_seq(o)) + tail, sd, curd, prev, cnt * o.max_code_width, lim) matches Some((z, r, ee))
            && z.len() == 0 && r == tail && (ee || lim is Some)
{
    let w = o.max_code_width as int;
    if let Some(c) = o.stop_code {
        lemma_code_bits_one(o, c as int);
        lemma_code_at(o, c as int, tail);
        assert(cnt * w <= (tot - 1) * w) by(nonlinear_arith) requires cnt <= tot - 1, w >= 0;
    } else {
        assert(code_bits(o, stop_seq(o)) + tail =~= tail);
    }
}
pub proof fn lemma_clear(o: crate::lzw::Options, sd: Strings, curd: int, prev: Option<Seq<u8>>, cnt: int, lim: Option<int>, tot: int, tail: Seq<bool>)
    requires
        lzw_lossless(o),
        tot == cnt + clear_seq(o).len(),
        lim is Some <==> o.header_bits > 0,
        lim is Some ==> (tot - 1) * o.max_code_width < lim->0 <= tot * o.max_code_width,
    ensures
        dec_chunk(o, code_bits(o, clear_seq(o)) + tail, sd, curd, prev, cnt * o.max_code_width, lim) matches Some((z, r, ee))
            && z.len() == 0 && r == tail && !ee
{
    let w = o.max_code_width as int;
    if let Some(c) = o.clear_code {
        lemma_code_bits_one(o, c as int);
        lemma_code_at(o, c as int, tail);
        assert(cnt * w <= (tot - 1) * w) by(nonlinear_arith) requires cnt <= tot - 1, w >= 0;
    } else {
        assert(code_bits(o, clear_seq(o)) + tail =~= tail);
    }
}
pub proof fn lemma_header_limit(o: crate::lzw::Options, n: int)
    requires lzw_lossless(o), 0 <= n <= o.chunk_size + 1, o.header_bits > 0
    ensures
        ({
            let w = o.max_code_width as int;
            let v = n * w / (o.header_divisor as int);
            0 <= v < pow2(o.header_bits as nat) && (n - 1) * w < o.header_divisor * v <= n * w
        }),
{
    let w = o.max_code_width as int;
    let d = o.header_divisor as int;
    let v = n * w / d;
    assert(n * w <= (o.chunk_size + 1) * w) by(nonlinear_arith) requires n <= o.chunk_size + 1, w >= 0;
    assert(n * w >= 0) by(nonlinear_arith) requires n >= 0, w >= 0;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(n * w, (o.chunk_size + 1) * w, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n * w, d);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n * w, d);
    assert((n - 1) * w == n * w - w) by(nonlinear_arith);
}
#[verifier::spinoff_prover]
pub proof fn lemma_dec_enc(o: crate::lzw::Options, x: Seq<u8>, i: int, pad: Seq<bool>)
    requires lzw_lossless(o), 0 <= i <= x.len(), pad.len() < 8
    ensures dec_all(o, enc_bits(o, x, i) + pad) == Some(x.skip(i))
    decreases x.len() - i
{
    let (codes, j, e) = enc_chunk(o, x, i, IMap::empty(), -1, 0);
    let h = o.header_bits as int;
    let n = codes.len() as int;
    lemma_enc_chunk_pos(o, x, i, IMap::empty(), -1, 0);
    let hd = lzw_header(o, n);
    let more = if e { Seq::<bool>::empty() } else { enc_bits(o, x, j) };
    let tail = more + pad;
    let b = enc_bits(o, x, i) + pad;
    let cb = code_bits(o, codes);
    assert(b =~= hd + (cb + tail));
    if h > 0 {
        lemma_header_limit(o, n);
        lemma_bits_val(is_msb(o), (n * o.max_code_width / (o.header_divisor as int)) as nat, h as nat);
    }
    assert(hd.len() == h);
    assert(b.take(h) =~= hd);
    assert(b.skip(h) =~= cb + tail);
    let lim: Option<int> = if h > 0 { Some(o.header_divisor * val_of(is_msb(o), b.take(h))) } else { None };
    lemma_pow2_mono(9, o.max_code_width as nat);
    lemma_pow2_values();
    assert(trie_strings(o, IMap::empty(), lzw_roots(), -1)) by {
        assert forall|c: int| 0 <= c <= 255 implies #[trigger] lzw_roots().contains_key(c) && lzw_roots()[c] == seq![c as u8] by {}
    }
    assert(tail =~= (if e { pad } else { tail }));
    lemma_chunk(o, x, i, IMap::empty(), -1, 0, lzw_roots(), lzw_roots(), -1, None, lim, n, tail);
    assert(0 * o.max_code_width == 0);
    let (z, r, ee) = dec_chunk(o, b.skip(h), lzw_roots(), -1, None, 0, lim)->0;
    assert(z == x.subrange(i, j) && r == tail);
    if e {
        assert(x.subrange(i, j) =~= x.skip(i));
        if !ee {
            assert(r == pad);
            assert(dec_all(o, pad) == Some(Seq::<u8>::empty()));
            assert(z + Seq::<u8>::empty() =~= z);
        }
    } else {
        lemma_dec_enc(o, x, j, pad);
        assert(tail == enc_bits(o, x, j) + pad);
        lemma_code_bits_len(o, codes);
        assert(codes.len() >= 1);
        assert(cb.len() >= 1) by(nonlinear_arith) requires cb.len() == codes.len() * o.max_code_width, codes.len() >= 1, o.max_code_width >= 9;
        assert(r.len() < b.len());
        assert(x.subrange(i, j) + x.skip(j) =~= x.skip(i));
    }
}
/// C01 on the level of the format
pub proof fn lemma_lzw_lossless(x: Seq<u8>, o: crate::lzw::Options)
    requires lzw_lossless(o)
    ensures lzw_decode(lzw_encode(x, o), o) == Some(x)
{
    hide(enc_bits); hide(dec_all);
    let s = enc_bits(o, x, 0);
    let u = unpack(is_msb(o), pack(is_msb(o), s));
    lemma_unpack_pack(is_msb(o), s);
    let pad = u.skip(s.len() as int);
    assert(u =~= s + pad);
    lemma_dec_enc(o, x, 0, pad);
    assert(x.skip(0) =~= x);
}
