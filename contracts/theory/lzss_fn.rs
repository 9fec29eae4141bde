// The LZSS/Huffman compressor as a function of the data and the format options: what the search finds, how the
// index changes, which codes come out.  Lossless coding (lzh_enc.rs) does not need this; that the output depends
// on nothing else does.

pub open spec fn tv_rank(t: TV) -> Seq<int> { choose|rk: Seq<int>| tv_rk(t, rk) }
pub proof fn lemma_rank_down(t: TV, k: int, s: int)
    requires tv_ok(t), 0 <= k < t.nodes.len()
    ensures gn_dn(t.nodes[k], s) matches Some(c) ==> c < t.nodes.len() && 0 <= tv_rank(t)[c as int] < tv_rank(t)[k], tv_rk(t, tv_rank(t))
{
    lemma_tv_node(t, tv_rank(t), k);
}
/// from k on down one side as far as it goes
pub open spec fn tv_end(t: TV, k: int, s: int) -> int
    decreases tv_rank(t)[k] when tv_ok(t) && 0 <= k < t.nodes.len() via tv_end_down
{
    match gn_dn(t.nodes[k], s) { Some(c) => tv_end(t, c as int, s), None => k }
}
#[via_fn]
proof fn tv_end_down(t: TV, k: int, s: int) { lemma_rank_down(t, k, s); }
/// the index without position p
#[verifier::opaque]
pub open spec fn del_fn(t: TV, p: int) -> TV {
    if !gn_reg(t.nodes[p]) { t } else {
        match (t.nodes[p].l, t.nodes[p].r) {
            (None, None) => tv_drop(t, p),
            (Some(x), None) => tv_replace(t, p, x as int),
            (None, Some(x)) => tv_replace(t, p, x as int),
            (Some(l), Some(r)) => if t.nodes[l as int].r is None { tv_replace(tv_move(t, r as int, l as int, 1), p, l as int) } else {
                let x = tv_end(t, l as int, 1);
                tv_replace(tv_move(tv_move(del_t2(t, x), l as int, x, 0), r as int, x, 1), p, x)
            },
        }
    }
}
/// first place from i on (up to la) where the bytes from c on differ from those from pos on; the modulus does
/// nothing in a window that goes on la - 1 bytes behind its end, as that of the port does
pub open spec fn run_to(b: Seq<u8>, pos: int, c: int, la: int, i: int) -> int
    decreases la - i
{
    if i < la && b[(pos + i) % (b.len() as int)] == b[(c + i) % (b.len() as int)] { run_to(b, pos, c, la, i + 1) } else { i }
}
/// the side on which the search goes on
pub open spec fn run_side(b: Seq<u8>, pos: int, c: int, la: int) -> int {
    let i = run_to(b, pos, c, la, 1);
    if i < la && b[(pos + i) % (b.len() as int)] < b[(c + i) % (b.len() as int)] { 0 } else { 1 }
}
pub struct IR { pub tv: TV, pub ml: int, pub mo: int }
/// best match so far after a look at position c
pub open spec fn best_of(w: int, b: Seq<u8>, pos: int, la: int, thr: int, ml: int, mo: int, c: int) -> (int, int) {
    let i = run_to(b, pos, c, la, 1);
    let d = (pos - c) % w - 1;
    if i > thr && i > ml { (i, d) } else if i > thr && i == ml && d < mo { (ml, d) } else { (ml, mo) }
}
pub open spec fn ins_walk(t: TV, b: Seq<u8>, pos: int, la: int, thr: int, ml: int, mo: int, c: int) -> IR
    decreases tv_rank(t)[c] when tv_ok(t) && 0 <= c < t.nodes.len() via ins_walk_down
{
    let m = best_of(t.nodes.len() as int, b, pos, la, thr, ml, mo, c);
    let s = run_side(b, pos, c, la);
    if m.0 > ml && m.0 >= la { IR { tv: tv_change(t, c, pos), ml: m.0, mo: m.1 } }
    else { match gn_dn(t.nodes[c], s) { Some(k) => ins_walk(t, b, pos, la, thr, m.0, m.1, k as int), None => IR { tv: tv_spawn(t, c, s, pos), ml: m.0, mo: m.1 } } }
}
#[via_fn]
proof fn ins_walk_down(t: TV, b: Seq<u8>, pos: int, la: int, thr: int, ml: int, mo: int, c: int) { lemma_rank_down(t, c, run_side(b, pos, c, la)); }
/// the search goes on below position c
pub open spec fn ins_next(t: TV, b: Seq<u8>, pos: int, la: int, thr: int, ml: int, mo: int, c: int) -> IR {
    let s = run_side(b, pos, c, la);
    match gn_dn(t.nodes[c], s) { Some(k) => ins_walk(t, b, pos, la, thr, ml, mo, k as int), None => IR { tv: tv_spawn(t, c, s, pos), ml, mo } }
}
pub proof fn lemma_ins_walk(t: TV, b: Seq<u8>, pos: int, la: int, thr: int, ml: int, mo: int, c: int)
    requires tv_ok(t), 0 <= c < t.nodes.len()
    ensures ({
        let m = best_of(t.nodes.len() as int, b, pos, la, thr, ml, mo, c);
        ins_walk(t, b, pos, la, thr, ml, mo, c) == if m.0 > ml && m.0 >= la { IR { tv: tv_change(t, c, pos), ml: m.0, mo: m.1 } } else { ins_next(t, b, pos, la, thr, m.0, m.1, c) }
    })
{
    hide(best_of); hide(run_side); hide(tv_spawn); hide(tv_change); hide(tv_ok);
    lemma_rank_down(t, c, run_side(b, pos, c, la));
}
/// the index with position pos, and the match found on the way
#[verifier::opaque]
pub open spec fn ins_fn(t: TV, b: Seq<u8>, pos: int, la: int, thr: int, mo: int) -> IR {
    match t.roots[b[pos] as int] {
        Some(c) => ins_walk(t, b, pos, la, thr, 0, mo, c as int),
        None => IR { tv: tv_spawn_root(t, b[pos] as int, pos), ml: 0, mo: mo },
    }
}

/// the compressor between two codes
pub struct ES { pub tv: TV, pub b: Seq<u8>, pub pos: int, pub ml: int, pub mo: int, pub len: int, pub done: int }
pub open spec fn es_ins(p: LzP, s: ES) -> ES {
    let r = ins_fn(s.tv, s.b, s.pos, p.la, p.thr, s.mo);
    ES { tv: r.tv, ml: r.ml, mo: r.mo, ..s }
}
/// a byte goes into the window; what lies behind its end is a copy of its beginning
pub open spec fn es_put(b: Seq<u8>, w: int, q: int, c: u8) -> Seq<u8> {
    if q + w < b.len() { b.update(q, c).update(q + w, c) } else { b.update(q, c) }
}
/// one byte further
#[verifier::opaque]
pub open spec fn es_step(p: LzP, x: Seq<u8>, s: ES) -> ES {
    let q = ring_ah(s.pos, p.w, p.la);
    let t = ES { tv: del_fn(s.tv, q), pos: ring_ah(s.pos, p.w, 1), done: s.done + 1, ..s };
    if s.done + s.len < x.len() { es_ins(p, ES { b: es_put(s.b, p.w, q, x[s.done + s.len]), ..t }) }
    else if s.len > 1 { es_ins(p, ES { len: s.len - 1, ..t }) }
    else { ES { len: s.len - 1, ..t } }
}
pub open spec fn es_steps(p: LzP, x: Seq<u8>, s: ES, n: nat) -> ES
    decreases n
{
    if n == 0 { s } else { es_step(p, x, es_steps(p, x, s, (n - 1) as nat)) }
}
pub proof fn lemma_es_done(p: LzP, x: Seq<u8>, s: ES, n: nat)
    ensures es_steps(p, x, s, n).done == s.done + n
    decreases n
{
    if n > 0 { lemma_es_done(p, x, s, (n - 1) as nat); reveal(es_step); }
}
/// the window, and over bytes behind its end
pub open spec fn es_window(p: LzP, x: Seq<u8>, over: nat) -> Seq<u8> {
    Seq::new((p.w + over) as nat, |i: int| if i < p.w - p.la { p.pre } else if i < p.w && i - (p.w - p.la) < x.len() { x[i - (p.w - p.la)] } else { 0 })
}
/// n positions before the first byte are in the index
pub open spec fn es_before(p: LzP, x: Seq<u8>, over: nat, n: nat) -> ES
    decreases n
{
    if n == 0 {
        ES { tv: TV { roots: Seq::new(256, |i: int| None), nodes: Seq::new(p.w as nat, |i: int| gn_empty()) }, b: es_window(p, x, over), pos: p.w - p.la, ml: 0, mo: 0,
            len: if x.len() < p.la { x.len() as int } else { p.la }, done: 0 }
    } else { es_ins(p, ES { pos: p.w - p.la - n, ..es_before(p, x, over, (n - 1) as nat) }) }
}
pub open spec fn es_start(p: LzP, x: Seq<u8>, over: nat) -> ES { es_ins(p, ES { pos: p.w - p.la, ..es_before(p, x, over, p.la as nat) }) }
/// how many bytes the next code stands for
pub open spec fn es_take(p: LzP, s: ES) -> int {
    let m = if s.ml > s.len { s.len } else { s.ml };
    if m <= p.thr { 1 } else { m }
}
pub open spec fn es_sym(p: LzP, s: ES) -> int {
    let m = if s.ml > s.len { s.len } else { s.ml };
    if m <= p.thr { s.b[s.pos] as int } else { 255 - p.thr + m }
}
pub open spec fn es_code(p: LzP, s: ES, t: HT) -> Seq<bool> {
    let c = es_sym(p, s);
    if c < 256 { huf_code(t, ht_leaf_of(t, c)) } else { huf_code(t, ht_leaf_of(t, c)) + pos_bits(s.mo) }
}
pub open spec fn es_next(p: LzP, x: Seq<u8>, s: ES) -> ES { es_steps(p, x, ES { ml: es_take(p, s), ..s }, es_take(p, s) as nat) }
/// all codes from here on
#[verifier::opaque]
pub open spec fn es_codes(p: LzP, x: Seq<u8>, s: ES, t: HT) -> Seq<bool>
    decreases (if x.len() > s.done { x.len() - s.done } else { 0 }) when p.thr >= 0 via es_codes_down
{
    if s.len <= 0 || s.done >= x.len() { Seq::empty() } else { es_code(p, s, t) + es_codes(p, x, es_next(p, x, s), ht_update(t, es_sym(p, s))) }
}
#[via_fn]
proof fn es_codes_down(p: LzP, x: Seq<u8>, s: ES, t: HT) { lemma_es_done(p, x, ES { ml: es_take(p, s), ..s }, es_take(p, s) as nat); }
pub proof fn lemma_es_codes(p: LzP, x: Seq<u8>, s: ES, t: HT, bits: Seq<bool>, all: Seq<bool>)
    requires all == bits + es_codes(p, x, s, t), 0 < s.len, s.done < x.len(), p.thr >= 0
    ensures all == (bits + es_code(p, s, t)) + es_codes(p, x, es_next(p, x, s), ht_update(t, es_sym(p, s)))
{
    reveal(es_codes);
    assert(all =~= (bits + es_code(p, s, t)) + es_codes(p, x, es_next(p, x, s), ht_update(t, es_sym(p, s))));
}
pub proof fn lemma_es_codes_end(p: LzP, x: Seq<u8>, s: ES, t: HT, bits: Seq<bool>, all: Seq<bool>)
    requires all == bits + es_codes(p, x, s, t), s.len <= 0, p.thr >= 0
    ensures all == bits
{
    reveal(es_codes);
    assert(all =~= bits);
}
/// the output of the compressor
#[verifier::opaque]
pub open spec fn lzss_encode(x: Seq<u8>, o: crate::lzss_huff::Options) -> Seq<u8> {
    let p = lzss_params(o, 0);
    let h = if o.header { le_bytes(x.len(), 4) } else { Seq::empty() };
    if x.len() == 0 { h } else { h + pack_msb(es_codes(p, x, es_start(p, x, 0), ht_init(p.nsym()))) }
}
pub open spec fn enc_params() -> LzP { LzP { w: 4096, la: 60, thr: 2, pre: 32, zf: false, max: 0 } }
/// the output of the port: its window goes on 59 bytes behind its end
#[verifier::opaque]
pub open spec fn port_encode(x: Seq<u8>) -> Seq<u8> {
    let p = enc_params();
    let h = le_bytes(x.len(), 4);
    if x.len() == 0 { h } else { h + pack_msb(es_codes(p, x, es_start(p, x, 59), ht_init(p.nsym()))) }
}
/// what the LZSS/Huffman compressor makes of it with the standard options
#[verifier::opaque]
pub open spec fn ring_encode(x: Seq<u8>) -> Seq<u8> {
    let p = enc_params();
    let h = le_bytes(x.len(), 4);
    if x.len() == 0 { h } else { h + pack_msb(es_codes(p, x, es_start(p, x, 0), ht_init(p.nsym()))) }
}
pub proof fn lemma_ring_encode(x: Seq<u8>, o: crate::lzss_huff::Options)
    requires std_opts(o)
    ensures lzss_encode(x, o) == ring_encode(x)
{
    reveal(ring_encode);
    reveal(lzss_encode);
}
pub proof fn lemma_lzss_encode_format(x: Seq<u8>, o: crate::lzss_huff::Options, p: crate::lzss_huff::Options)
    requires crate::lzss_huff::same_lzss_format(o, p)
    ensures lzss_encode(x, o) == lzss_encode(x, p)
{
    assert(lzss_params(o, 0) == lzss_params(p, 0));
    reveal(lzss_encode);
}
/// the bytes that were placed are there
pub proof fn lemma_placed_range(d0: Seq<u8>, off: int, s: Seq<u8>, d: Seq<u8>)
    requires placed(d0, off, s, d), s.len() > 0, off >= 0
    ensures d.len() >= off + s.len(), d.subrange(off, off + s.len()) == s
{
    reveal(wr);
    assert(d.subrange(off, off + s.len()) =~= s);
}
