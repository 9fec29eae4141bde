// ---------------------------------------------------------------- the LZHUF format: codes

/// the code of a node: the turns taken from the root down to it
pub open spec fn huf_code(t: HT, k: int) -> Seq<bool>
    decreases t.root() - k
{
    let p = ht_par(t, k);
    if k >= t.root() || p <= k || p > t.root() { Seq::empty() } else { huf_code(t, p).push(k % 2 == 1) }
}
/// the n highest bits of a word
pub open spec fn top_bits(code: u32, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| top_bit(code, i)) }
pub open spec fn top_bit(code: u32, i: int) -> bool { (code >> ((31 - i) as u32)) & 1 == 1 }

/// going down along the code of k from the root ends at k
pub proof fn lemma_code_walk(t: HT, k: int, rest: Seq<bool>, zf: bool)
    requires ht_dims(t), ht_sons(t), ht_links(t), 0 <= k <= t.root()
    ensures huf_walk(t, t.son[t.root()] as int, huf_code(t, k) + rest, zf) == huf_walk(t, t.son[k] as int, rest, zf)
    decreases t.root() - k
{
    if k == t.root() {
        assert(huf_code(t, k) + rest =~= rest);
    } else {
        let p = ht_par(t, k);
        lemma_par_above(t, k);
        let r1 = seq![k % 2 == 1] + rest;
        assert(huf_code(t, k) + rest =~= huf_code(t, p) + r1);
        lemma_code_walk(t, p, r1, zf);
        let s = t.son[p] as int;
        assert(is_son_of(t, p, s));
        lemma_walk_step(t, s, r1, zf);
        assert(r1.skip(1) =~= rest);
        assert(r1[0] == (k % 2 == 1));
        assert(s % 2 == 0);
        assert(s + bitval(r1[0]) == k);
    }
}
pub proof fn lemma_code_sym(t: HT, c: int, rest: Seq<bool>, zf: bool)
    requires ht_dims(t), ht_sons(t), ht_links(t), 0 <= c < t.n
    ensures
        huf_sym(t, huf_code(t, ht_leaf_of(t, c)) + rest, zf) == Some((c, rest)),
        0 <= ht_leaf_of(t, c) < t.root(),
        huf_code(t, ht_leaf_of(t, c)).len() >= 1,
{
    let k = ht_leaf_of(t, c);
    assert(is_leaf_of(t, k, c));
    lemma_root_sons(t);
    lemma_code_walk(t, k, rest, zf);
    lemma_par_above(t, k);
}
pub open spec fn fib(n: nat) -> nat
    decreases n
{
    if n < 2 { n } else { fib((n - 1) as nat) + fib((n - 2) as nat) }
}
pub proof fn lemma_fib_mono(a: nat, b: nat)
    requires a <= b
    ensures fib(a) <= fib(b)
    decreases b
{
    if a < b {
        lemma_fib_mono(a, (b - 1) as nat);
    }
}
/// one step up: frequencies along a path grow like the Fibonacci numbers
pub proof fn lemma_fib_step(t: HT, prev: int, k: int, d: int)
    requires
        ht_dims(t), ht_sons(t), ht_links(t), ht_keys(t), ht_sums(t, -1),
        0 <= prev < t.root(), k == ht_par(t, prev), k < t.root(), d >= 0,
        t.freq[prev] >= fib((d + 2) as nat), t.freq[k] >= fib((d + 3) as nat),
    ensures t.freq[ht_par(t, k)] >= fib((d + 4) as nat)
{
    lemma_par_above(t, prev);
    lemma_par_above(t, k);
    let p = ht_par(t, k);
    let s = t.son[p] as int;
    let s0 = t.son[k] as int;
    assert(s0 % 2 == 0 && s0 + 1 < k);
    assert(s % 2 == 0);
    let o = if s == k { s + 1 } else { s };
    assert(o > prev);
    assert(t.freq[prev] <= t.freq[o]);
    assert(t.freq[p] == t.freq[s] + t.freq[s + 1]);
    assert(fib((d + 4) as nat) == fib((d + 3) as nat) + fib((d + 2) as nat));
}
pub proof fn lemma_fib_first(t: HT, k: int)
    requires ht_dims(t), ht_sons(t), ht_links(t), ht_keys(t), ht_sums(t, -1), 0 <= k < t.root()
    ensures t.freq[k] >= fib(2), t.freq[ht_par(t, k)] >= fib(3)
{
    lemma_par_above(t, k);
    let p = ht_par(t, k);
    let s = t.son[p] as int;
    assert(t.freq[p] == t.freq[s] + t.freq[s + 1]);
    assert(t.freq[0] <= t.freq[s] && t.freq[0] <= t.freq[s + 1] && t.freq[0] <= t.freq[k]);
    assert(fib(2) == 1 && fib(3) == 2) by(compute_only);
}
pub proof fn lemma_fib_bound(t: HT, k: int, d: int)
    requires ht_dims(t), ht_keys(t), 0 <= k <= t.root(), d >= 0, t.freq[k] >= fib((d + 2) as nat)
    ensures d <= 21
{
    assert(t.freq[k] <= t.freq[t.root()]);
    if d >= 22 {
        lemma_fib_mono(24, (d + 2) as nat);
        assert(fib(24) == 46368) by {
            assert(fib(0) == 0); assert(fib(1) == 1); assert(fib(2) == 1); assert(fib(3) == 2); assert(fib(4) == 3); assert(fib(5) == 5); assert(fib(6) == 8); assert(fib(7) == 13);
            assert(fib(8) == 21); assert(fib(9) == 34); assert(fib(10) == 55); assert(fib(11) == 89); assert(fib(12) == 144);
            assert(fib(13) == 233); assert(fib(14) == 377); assert(fib(15) == 610); assert(fib(16) == 987); assert(fib(17) == 1597);
            assert(fib(18) == 2584); assert(fib(19) == 4181); assert(fib(20) == 6765); assert(fib(21) == 10946); assert(fib(22) == 17711);
            assert(fib(23) == 28657);
        }
    }
}
/// a bit put in front of the code word
pub proof fn lemma_top_front(code: u32, n: int, b: u32)
    requires 0 <= n < 32, b <= 1
    ensures
        (code >> 1) + (b << 31) <= u32::MAX,
        top_bits(((code >> 1) + (b << 31)) as u32, n + 1) == seq![b == 1] + top_bits(code, n),
{
    assert((code >> 1) <= 0x7fff_ffff) by(bit_vector);
    assert(b <= 1 ==> (b << 31) == 0x8000_0000 * b) by(bit_vector);
    let c2 = ((code >> 1) + (b << 31)) as u32;
    let l = top_bits(c2, n + 1);
    let r = seq![b == 1] + top_bits(code, n);
    assert forall|i: int| 0 <= i < n + 1 implies l[i] == r[i] by {
        if i == 0 {
            assert(b <= 1 ==> (add(code >> 1, b << 31) >> 31) & 1 == b) by(bit_vector);
        } else {
            let j = (31 - i) as u32;
            assert(b <= 1 && j < 31 ==> (add(code >> 1, b << 31) >> j) & 1 == (code >> add(j, 1)) & 1) by(bit_vector);
            assert(r[i] == top_bits(code, n)[i - 1]);
        }
    }
    assert(l =~= r);
}
/// what the shifting loop of `put_code` does
pub proof fn lemma_top_shift(code: u32, k: int)
    requires 0 <= k < 32
    ensures ((code << (k as u32)) & 0x8000_0000 > 0) == top_bit(code, k), (code << (k as u32)) << 1 == (if k == 31 { 0u32 } else { code << ((k + 1) as u32) })
{
    let j = k as u32;
    assert(j < 32 ==> (((code << j) & 0x8000_0000 > 0) == ((code >> sub(31, j)) & 1 == 1))) by(bit_vector);
    assert(j < 31 ==> (code << j) << 1 == code << add(j, 1)) by(bit_vector);
    assert((code << 31) << 1 == 0) by(bit_vector);
}
pub proof fn lemma_val_concat(a: Seq<bool>, b: Seq<bool>)
    ensures val_msb(a + b) == val_msb(a) * pow2(b.len()) + val_msb(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(pow2(0) == 1);
        assert(val_msb(a) * 1 == val_msb(a));
    } else {
        let b0 = b.drop_last();
        assert((a + b).drop_last() =~= a + b0);
        lemma_val_concat(a, b0);
        let x = val_msb(a); let m = pow2(b0.len());
        assert(pow2(b.len()) == 2 * m);
        assert(x * (2 * m) == 2 * (x * m)) by(nonlinear_arith);
    }
}
/// reading bits that are there
pub proof fn lemma_nbits_prefix(s: Seq<bool>, rest: Seq<bool>, n: nat, zf: bool)
    requires n <= s.len()
    ensures nbits(s + rest, n, zf) == Some((val_msb(s.take(n as int)) as int, s.skip(n as int) + rest))
    decreases n
{
    if n == 0 {
        assert(s.skip(0) + rest =~= s + rest);
        assert(s.take(0) =~= Seq::<bool>::empty());
    } else {
        let m = (n - 1) as nat;
        lemma_nbits_prefix(s, rest, m, zf);
        assert(s.take(n as int).drop_last() =~= s.take(m as int));
        assert((s.skip(m as int) + rest).skip(1) =~= s.skip(n as int) + rest);
    }
}
pub proof fn lemma_val_top(code: u32, n: int)
    requires 1 <= n <= 8
    ensures val_msb(top_bits(code, n)) == code >> ((32 - n) as u32)
    decreases n
{
    let s = top_bits(code, n);
    assert(s.drop_last() =~= top_bits(code, n - 1));
    let j = (32 - n) as u32;
    if n == 1 {
        assert(s.drop_last() =~= Seq::<bool>::empty());
        assert(val_msb(s.drop_last()) == 0);
        assert((code >> 31) == (code >> 31) & 1) by(bit_vector);
    } else {
        lemma_val_top(code, n - 1);
        assert(24 <= j <= 30 ==> (code >> j) == add(mul(2, code >> add(j, 1)), (code >> j) & 1)) by(bit_vector);
        assert(24 <= j <= 30 ==> (code >> j) < 0x200 && (code >> add(j, 1)) < 0x200) by(bit_vector);
    }
    assert((code >> j) & 1 <= 1) by(bit_vector);
}
/// the code words of the upper 6 bits of a position
pub open spec fn p_code(i: int) -> int {
    if i < 1 { 0 } else if i < 4 { 32 + 16 * (i - 1) } else if i < 12 { 80 + 8 * (i - 4) } else if i < 24 { 144 + 4 * (i - 12) }
    else if i < 48 { 192 + 2 * (i - 24) } else { 240 + (i - 48) }
}
pub open spec fn p_len(i: int) -> int {
    if i < 1 { 3 } else if i < 4 { 4 } else if i < 12 { 5 } else if i < 24 { 6 } else if i < 48 { 7 } else { 8 }
}
/// the code of a position
pub open spec fn pos_bits(q: int) -> Seq<bool> {
    top_bits(((p_code(q / 64) as u32) << 24) as u32, p_len(q / 64)) + top_bits(((q % 64) as u32) << 26, 6)
}
pub open spec fn two_k(l: int) -> int { if l == 3 { 2 } else if l == 4 { 4 } else if l == 5 { 8 } else if l == 6 { 16 } else if l == 7 { 32 } else { 64 } }
pub open spec fn two_m(l: int) -> int { if l == 3 { 32 } else if l == 4 { 16 } else if l == 5 { 8 } else if l == 6 { 4 } else if l == 7 { 2 } else { 1 } }
/// the first 8 bits tell the code
pub proof fn lemma_pos_arith(up: int, lo: int, va: int, i: int, x: int)
    requires
        0 <= up < 64, 0 <= lo < 64, va == p_code(up) / two_m(p_len(up)),
        va * 64 + lo == i * two_k(p_len(up)) + x, 0 <= x < two_k(p_len(up)),
    ensures pos_len(i) == p_len(up), pos_code(i) == up, 0 <= i < 256
{
    let l = p_len(up);
    if l == 3 { assert(va == 0); assert(0 <= i < 32); }
    else if l == 4 { assert(va == up + 1); assert(16 * (up + 1) <= i < 16 * (up + 2)); }
    else if l == 5 { assert(va == up + 6); assert(8 * (up + 6) <= i < 8 * (up + 7)); }
    else if l == 6 { assert(va == up + 24); assert(4 * (up + 24) <= i < 4 * (up + 25)); }
    else if l == 7 { assert(va == up + 72); assert(2 * (up + 72) <= i < 2 * (up + 73)); }
    else { assert(va == up + 192); assert(i == 192 + up); }
}
pub proof fn lemma_pos_bits(q: int, rest: Seq<bool>, zf: bool)
    requires 0 <= q < 4096
    ensures huf_pos(pos_bits(q) + rest, zf) == Some((q, rest))
{
    let up = q / 64; let lo = q % 64;
    let l = p_len(up);
    let pc = p_code(up) as u32;
    let w1 = (pc << 24) as u32;
    let w2 = ((lo as u32) << 26) as u32;
    let a = top_bits(w1, l);
    let b = top_bits(w2, 6);
    let s = a + b;
    let e = s.take(8);
    let f = s.skip(8);
    lemma_pow2_values();
    lemma_val_top(w1, l);
    lemma_val_top(w2, 6);
    let j = (32 - l) as u32;
    let j2 = (8 - l) as u32;
    assert(pc < 256 && j2 <= 5 && j == add(24, j2) ==> (pc << 24) >> j == pc >> j2) by(bit_vector);
    let lo32 = lo as u32;
    assert(lo32 < 64 ==> (lo32 << 26) >> 26 == lo32) by(bit_vector);
    assert(val_msb(b) == lo);
    assert(val_msb(a) == pc >> j2);
    assert(pc >> 0 == pc && pc >> 1 == pc / 2 && pc >> 2 == pc / 4 && pc >> 3 == pc / 8 && pc >> 4 == pc / 16 && pc >> 5 == pc / 32) by(bit_vector);
    lemma_val_concat(a, b);
    assert(s =~= e + f);
    lemma_val_concat(e, f);
    lemma_val_bound(true, f);
    let k = (l - 2) as nat;
    assert(f.len() == k);
    lemma_nbits_prefix(s, rest, 8, zf);
    lemma_nbits_prefix(f, rest, k, zf);
    assert(f.take(k as int) =~= f);
    assert(f.skip(k as int) + rest =~= rest);
    let i = val_msb(e) as int;
    let x = val_msb(f) as int;
    let va = val_msb(a) as int;
    assert(va * 64 + lo == i * pow2(k) + x);
    assert(x < pow2(k));
    assert(pow2(k) == two_k(l));
    assert(pc >> j2 == p_code(up) / two_m(l));
    lemma_pos_arith(up, lo, va, i, x);
    assert((i * pow2(k) + x) % 64 == lo);
    assert(pos_bits(q) + rest =~= s + rest);
}
// ---------------------------------------------------------------- what an encoder has to produce

pub open spec fn same_code(p: LzP, q: LzP) -> bool { p.w == q.w && p.la == q.la && p.thr == q.thr && p.pre == q.pre }
/// after these bits a decoder has produced `out` and has the model t, whatever follows
#[verifier::opaque]
pub open spec fn lz_enc(p: LzP, bits: Seq<bool>, t: HT, out: Seq<u8>) -> bool {
    &&& ht_wf(t) && t.n == p.nsym()
    &&& forall|q: LzP, r: Seq<bool>| same_code(p, q) && out.len() <= q.max ==>
        #[trigger] lz_run(q, ht_init(q.nsym()), bits + r, Seq::empty()) == lz_run(q, t, r, out)
}
pub open spec fn lz_end(p: LzP, x: Seq<u8>, b: Seq<u8>, bits: Seq<bool>, t: HT) -> bool { lz_enc(p, bits, t, x) && b == pack_msb(bits) }
pub open spec fn lz_done(p: LzP, x: Seq<u8>, b: Seq<u8>) -> bool { exists|bits: Seq<bool>, t: HT| lz_end(p, x, b, bits, t) }
/// s is a stream (with the length header, if there is one) for the data x
pub open spec fn lzhuf_encodes(x: Seq<u8>, s: Seq<u8>, o: crate::lzss_huff::Options) -> bool {
    if o.header { x.len() <= u32::MAX && s.len() >= 4 && s.take(4) == le_bytes(x.len(), 4) && lz_done(lzss_params(o, 0), x, s.skip(4)) }
    else { lz_done(lzss_params(o, 0), x, s) && (x.len() == 0 ==> s.len() == 0) }
}
pub open spec fn port_encodes(x: Seq<u8>, s: Seq<u8>) -> bool {
    x.len() <= u32::MAX && s.len() >= 4 && s.take(4) == le_bytes(x.len(), 4) && lz_done(port_params(0), x, s.skip(4))
}
pub proof fn lemma_lze_start(p: LzP)
    requires p.ok()
    ensures lz_enc(p, Seq::empty(), ht_init(p.nsym()), Seq::empty())
{
    reveal(lz_enc);
    lemma_init_wf(p.nsym());
    assert forall|q: LzP, r: Seq<bool>| same_code(p, q) && 0 <= q.max implies
        #[trigger] lz_run(q, ht_init(q.nsym()), Seq::<bool>::empty() + r, Seq::empty()) == lz_run(q, ht_init(p.nsym()), r, Seq::empty()) by {
        assert(Seq::<bool>::empty() + r =~= r);
    }
}
pub proof fn lemma_lze_wf(p: LzP, bits: Seq<bool>, t: HT, out: Seq<u8>)
    requires lz_enc(p, bits, t, out)
    ensures ht_wf(t), t.n == p.nsym()
{
    reveal(lz_enc);
}
pub proof fn lemma_lze_literal(p: LzP, bits: Seq<bool>, t: HT, out: Seq<u8>, c: u8)
    requires lz_enc(p, bits, t, out), p.ok()
    ensures lz_enc(p, bits + huf_code(t, ht_leaf_of(t, c as int)), ht_update(t, c as int), out.push(c))
{
    reveal(lz_enc);
    lemma_wf_parts(t);
    lemma_update_wf(t, c as int);
    let b = huf_code(t, ht_leaf_of(t, c as int));
    assert forall|q: LzP, r: Seq<bool>| same_code(p, q) && out.push(c).len() <= q.max implies
        #[trigger] lz_run(q, ht_init(q.nsym()), bits + b + r, Seq::empty()) == lz_run(q, ht_update(t, c as int), r, out.push(c)) by {
        assert(bits + b + r =~= bits + (b + r));
        assert(lz_run(q, ht_init(q.nsym()), bits + (b + r), Seq::empty()) == lz_run(q, t, b + r, out));
        lemma_code_sym(t, c as int, r, q.zf);
        assert(lz_step(q, t, b + r, out) == Some((ht_update(t, c as int), r, out.push(c))));
    }
}
pub proof fn lemma_copy_same(p: LzP, q: LzP, out: Seq<u8>, d: int, n: nat)
    requires same_code(p, q)
    ensures lz_copy(p, out, d, n) == lz_copy(q, out, d, n)
    decreases n
{
    if n > 0 { lemma_copy_same(p, q, out, d, (n - 1) as nat); }
}
pub proof fn lemma_lze_match(p: LzP, bits: Seq<bool>, t: HT, out: Seq<u8>, n: int, k: int)
    requires lz_enc(p, bits, t, out), p.ok(), p.thr < n <= p.la, 0 <= k < p.w
    ensures lz_enc(p, bits + (huf_code(t, ht_leaf_of(t, 255 - p.thr + n)) + pos_bits(k)), ht_update(t, 255 - p.thr + n), lz_copy(p, out, k + 1, n as nat))
{
    reveal(lz_enc);
    lemma_wf_parts(t);
    let c = 255 - p.thr + n;
    lemma_update_wf(t, c);
    let b = huf_code(t, ht_leaf_of(t, c));
    let pb = pos_bits(k);
    let o1 = lz_copy(p, out, k + 1, n as nat);
    lemma_copy_len(p, out, k + 1, n as nat);
    assert(k % p.w == k) by { lemma_ring_mod(k, p.w, 0); }
    assert forall|q: LzP, r: Seq<bool>| same_code(p, q) && o1.len() <= q.max implies
        #[trigger] lz_run(q, ht_init(q.nsym()), bits + (b + pb) + r, Seq::empty()) == lz_run(q, ht_update(t, c), r, o1) by {
        assert(bits + (b + pb) + r =~= bits + (b + (pb + r)));
        assert(lz_run(q, ht_init(q.nsym()), bits + (b + (pb + r)), Seq::empty()) == lz_run(q, t, b + (pb + r), out));
        lemma_code_sym(t, c, pb + r, q.zf);
        lemma_pos_bits(k, r, q.zf);
        lemma_copy_same(p, q, out, k + 1, n as nat);
        assert(lz_step(q, t, b + (pb + r), out) == Some((ht_update(t, c), r, o1)));
    }
}
/// a decoder that stops at the right length
pub proof fn lemma_lze_exact(p: LzP, x: Seq<u8>, b: Seq<u8>, q: LzP)
    requires lz_done(p, x, b), same_code(p, q), q.max == x.len()
    ensures lz_decode(q, b) == x
{
    reveal(lz_enc);
    let (bits, t) = choose|bits: Seq<bool>, t: HT| lz_end(p, x, b, bits, t);
    lemma_unpack_pack(true, bits);
    let u = unpack_msb(b);
    let r = u.skip(bits.len() as int);
    assert(u =~= bits + r);
    assert(lz_run(q, ht_init(q.nsym()), bits + r, Seq::empty()) == lz_run(q, t, r, x));
    lemma_run_end(q, t, r, x);
}
pub proof fn lemma_nbits_short(rest: Seq<bool>, n: nat)
    ensures
        rest.len() < n ==> nbits(rest, n, false) is None,
        nbits(rest, n, false) matches Some((v, r)) ==> r.len() == rest.len() - n,
    decreases n
{
    if n > 0 { lemma_nbits_short(rest, (n - 1) as nat); }
}
pub proof fn lemma_walk_uses(t: HT, k: int, rest: Seq<bool>)
    requires ht_dims(t), ht_sons(t), is_son(t, k)
    ensures huf_walk(t, k, rest, false) matches Some((c, r)) ==> r.len() <= rest.len() && (k < t.nn() ==> r.len() < rest.len()) && 0 <= c < t.n
    decreases k
{
    lemma_son_range(t, k);
    if k < t.nn() {
        lemma_walk_step(t, k, rest, false);
        if let Some((b, r)) = nb(rest, false) {
            lemma_walk_uses_down(t, k, b, r);
        }
    }
}
pub proof fn lemma_walk_uses_down(t: HT, k: int, b: int, r: Seq<bool>)
    requires ht_dims(t), ht_sons(t), is_son(t, k), 0 <= k < t.nn(), 0 <= b <= 1, is_son(t, t.son[k + b] as int), t.son[k + b] < t.nn() ==> t.son[k + b] < k
    ensures huf_walk(t, t.son[k + b] as int, r, false) matches Some((c, r2)) ==> r2.len() <= r.len() && 0 <= c < t.n
    decreases k, 0int
{
    let q = t.son[k + b] as int;
    lemma_son_range(t, q);
    if q < t.nn() { lemma_walk_uses(t, q, r); }
}
/// fewer than 8 bits hold nothing but literals
pub proof fn lemma_run_tail(q: LzP, t: HT, r: Seq<bool>, out: Seq<u8>)
    requires r.len() < 8, ht_wf(t), t.n == q.nsym(), q.ok(), !q.zf
    ensures ({ let y = lz_run(q, t, r, out); out.len() <= y.len() <= out.len() + r.len() && y.take(out.len() as int) == out })
    decreases r.len()
{
    assert(out.take(out.len() as int) =~= out);
    if out.len() < q.max {
        lemma_wf_parts(t);
        lemma_walk_start(t);
        lemma_root_sons(t);
        lemma_walk_uses(t, t.son[t.root()] as int, r);
        match huf_sym(t, r, false) {
            Some((c, r1)) => {
                lemma_nbits_short(r1, 8);
                if c < 256 {
                    let o1 = out.push(c as u8);
                    lemma_update_wf(t, c);
                    lemma_run_tail(q, ht_update(t, c), r1, o1);
                    let y = lz_run(q, ht_update(t, c), r1, o1);
                    assert(y.take(out.len() as int) =~= y.take(o1.len() as int).take(out.len() as int));
                    assert(o1.take(out.len() as int) =~= out);
                }
            },
            None => {},
        }
    }
}
pub proof fn lemma_lze_tail(p: LzP, x: Seq<u8>, b: Seq<u8>, q: LzP)
    requires lz_done(p, x, b), same_code(p, q), q.max >= x.len(), q.ok(), !q.zf
    ensures ({ let y = lz_decode(q, b); x.len() <= y.len() <= x.len() + 7 && y.take(x.len() as int) == x })
{
    reveal(lz_enc);
    let (bits, t) = choose|bits: Seq<bool>, t: HT| lz_end(p, x, b, bits, t);
    lemma_unpack_pack(true, bits);
    let u = unpack_msb(b);
    let r = u.skip(bits.len() as int);
    assert(u =~= bits + r);
    assert(lz_run(q, ht_init(q.nsym()), bits + r, Seq::empty()) == lz_run(q, t, r, x));
    lemma_run_tail(q, t, r, x);
}
/// nothing is made of nothing
pub proof fn lemma_run_nothing(q: LzP)
    requires q.ok(), !q.zf
    ensures lz_decode(q, Seq::empty()) == Seq::<u8>::empty()
{
    lemma_init_wf(q.nsym());
    assert(unpack_msb(Seq::<u8>::empty()) =~= Seq::<bool>::empty());
    lemma_run_tail(q, ht_init(q.nsym()), Seq::empty(), Seq::empty());
    let y = lz_run(q, ht_init(q.nsym()), Seq::empty(), Seq::empty());
    assert(y =~= Seq::<u8>::empty());
}
pub proof fn lemma_le4(x: nat)
    requires x <= u32::MAX
    ensures le_bytes(x, 4).len() == 4, le_value(le_bytes(x, 4)) == x
{
    assert(pow256(4) == 0x1_0000_0000) by(compute_only);
    lemma_le_back(x, 4);
}
pub open spec fn pow256(n: nat) -> nat
    decreases n
{
    if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) }
}
pub proof fn lemma_le_back(x: nat, n: nat)
    requires x < pow256(n)
    ensures le_bytes(x, n).len() == n, le_value(le_bytes(x, n)) == x
    decreases n
{
    if n > 0 {
        lemma_le_back(x / 256, (n - 1) as nat);
        let b = le_bytes(x, n);
        assert(b.skip(1) =~= le_bytes(x / 256, (n - 1) as nat));
    }
}
/// C02
pub proof fn lemma_lzhuf_lossless(x: Seq<u8>, s: Seq<u8>, o: crate::lzss_huff::Options)
    requires lzss_opts_ok(o), o.header, lzhuf_encodes(x, s, o)
    ensures lzhuf_decode(s, o) == Some(x)
{
    lemma_le4(x.len());
    lemma_lze_exact(lzss_params(o, 0), x, s.skip(4), lzss_params(o, x.len() as int));
}
/// C05
pub proof fn lemma_lzhuf_tail(x: Seq<u8>, s: Seq<u8>, o: crate::lzss_huff::Options)
    requires lzss_opts_ok(o), !o.header, lzhuf_encodes(x, s, o), x.len() <= u32::MAX
    ensures lzhuf_decode(s, o) matches Some(y) && x.len() <= y.len() <= x.len() + 7 && y.take(x.len() as int) == x
{
    lemma_lze_tail(lzss_params(o, 0), x, s, lzss_params(o, u32::MAX as int));
}
/// C05: nothing expands to nothing
pub proof fn lemma_lzhuf_nothing(o: crate::lzss_huff::Options)
    requires lzss_opts_ok(o), !o.header
    ensures lzhuf_decode(Seq::empty(), o) == Some(Seq::<u8>::empty())
{
    lemma_run_nothing(lzss_params(o, u32::MAX as int));
}
/// C03
pub proof fn lemma_port_lossless(x: Seq<u8>, s: Seq<u8>)
    requires port_encodes(x, s)
    ensures port_decode(s) == Some(x)
{
    lemma_le4(x.len());
    lemma_lze_exact(port_params(0), x, s.skip(4), port_params(x.len() as int));
}
pub open spec fn std_opts(o: crate::lzss_huff::Options) -> bool { o.header && o.window_size == 4096 && o.lookahead == 60 && o.threshold == 2 && o.precursor == 32 }
/// C04
pub proof fn lemma_lzhuf_port(x: Seq<u8>, s: Seq<u8>, o: crate::lzss_huff::Options)
    requires std_opts(o)
    ensures
        lzhuf_encodes(x, s, o) ==> port_decode(s) == Some(x),
        port_encodes(x, s) ==> lzhuf_decode(s, o) == Some(x),
{
    if x.len() <= u32::MAX { lemma_le4(x.len()); }
    if lzhuf_encodes(x, s, o) { lemma_lze_exact(lzss_params(o, 0), x, s.skip(4), port_params(x.len() as int)); }
    if port_encodes(x, s) { lemma_lze_exact(port_params(0), x, s.skip(4), lzss_params(o, x.len() as int)); }
}

// ---------------------------------------------------------------- the bit writers of both coders

/// the bits `new` were put: whatever the stream held, it now holds that and the new bits
#[verifier::opaque]
pub open spec fn codes_put(d: Seq<u8>, p: int, bits: Seq<bool>, new: Seq<bool>, d2: Seq<u8>, p2: int, bits2: Seq<bool>) -> bool {
    forall|d0: Seq<u8>, off: int, done: Seq<bool>| #[trigger] coder_at(true, d0, off, done, d, p, bits) ==> coder_at(true, d0, off, done + new, d2, p2, bits2)
}
pub proof fn lemma_codes_put(d: Seq<u8>, p: int, bits: Seq<bool>, new: Seq<bool>)
    ensures ({ let all = bits + new; let k = all.len() as int / 8; codes_put(d, p, bits, new, wr(d, p, pack(true, all)), p + k, all.skip(8 * k)) })
{
    reveal(codes_put);
    let all = bits + new; let k = all.len() as int / 8;
    assert forall|d0: Seq<u8>, off: int, done: Seq<bool>| #[trigger] coder_at(true, d0, off, done, d, p, bits)
        implies coder_at(true, d0, off, done + new, wr(d, p, pack(true, all)), p + k, all.skip(8 * k)) by {
        lemma_coder_put(true, d0, off, done, d, p, bits, new);
    }
}
pub proof fn lemma_codes_two(d: Seq<u8>, p: int, bits: Seq<bool>, n1: Seq<bool>, d1: Seq<u8>, p1: int, b1: Seq<bool>, n2: Seq<bool>, d2: Seq<u8>, p2: int, b2: Seq<bool>)
    requires codes_put(d, p, bits, n1, d1, p1, b1), codes_put(d1, p1, b1, n2, d2, p2, b2)
    ensures codes_put(d, p, bits, n1 + n2, d2, p2, b2)
{
    reveal(codes_put);
    assert forall|d0: Seq<u8>, off: int, done: Seq<bool>| #[trigger] coder_at(true, d0, off, done, d, p, bits)
        implies coder_at(true, d0, off, done + (n1 + n2), d2, p2, b2) by {
        assert(coder_at(true, d0, off, done + n1, d1, p1, b1));
        assert(done + n1 + n2 =~= done + (n1 + n2));
    }
}
pub proof fn lemma_codes_done(d0: Seq<u8>, off: int, done: Seq<bool>, d: Seq<u8>, p: int, bits: Seq<bool>, new: Seq<bool>, d2: Seq<u8>, p2: int, b2: Seq<bool>)
    requires codes_put(d, p, bits, new, d2, p2, b2), coder_at(true, d0, off, done, d, p, bits)
    ensures coder_at(true, d0, off, done + new, d2, p2, b2)
{
    reveal(codes_put);
}
