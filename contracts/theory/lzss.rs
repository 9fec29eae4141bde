// The encoder's window: what the ring buffer holds, and why a match the search reports may be coded.

/// index of the byte i places ahead
pub open spec fn ring_ah(pos: int, w: int, i: int) -> int { if pos + i < w { pos + i } else { pos + i - w } }
pub proof fn lemma_ah(pos: int, w: int, i: int)
    requires 0 <= pos < w, 0 <= i <= w
    ensures (pos + i) % w == ring_ah(pos, w, i), 0 <= ring_ah(pos, w, i) < w
{
    lemma_ring_mod(pos + i, w, if pos + i < w { 0 } else { -1 });
}
pub open spec fn ah_at(b: Seq<u8>, pos: int, x: Seq<u8>, done: int, i: int) -> bool { b[ring_ah(pos, b.len() as int, i)] == x[done + i] }
pub open spec fn hist_at(p: LzP, out: Seq<u8>, b: Seq<u8>, pos: int, d: int) -> bool { b[ring_at(pos, p.w, d)] == lz_win(p, out, d) }
/// done bytes of x have been passed, len more are in the buffer from pos on; behind pos is what the decoder has there
#[verifier::opaque]
pub open spec fn enc_win(p: LzP, x: Seq<u8>, done: int, len: int, b: Seq<u8>, pos: int) -> bool {
    &&& p.ok() && b.len() == p.w && 0 <= pos < p.w && 0 <= done && 0 <= len <= p.la && done + len <= x.len()
    &&& forall|d: int| 1 <= d <= p.w - p.la ==> #[trigger] hist_at(p, x.take(done), b, pos, d)
    &&& forall|i: int| 0 <= i < len ==> #[trigger] ah_at(b, pos, x, done, i)
}
pub proof fn lemma_win_facts(p: LzP, x: Seq<u8>, done: int, len: int, b: Seq<u8>, pos: int)
    requires enc_win(p, x, done, len, b, pos)
    ensures b.len() == p.w, 2 <= p.w, 0 <= pos < p.w, 0 <= done, 0 <= len <= p.la, done + len <= x.len(), len > 0 ==> b[pos] == x[done], (pos + 0) % p.w == pos,
        (pos + 1) % p.w == ring_ah(pos, p.w, 1), (pos + p.la) % p.w == ring_ah(pos, p.w, p.la), p.ok(),
{
    reveal(enc_win);
    if len > 0 { assert(ah_at(b, pos, x, done, 0)); }
    lemma_ah(pos, p.w, 0);
    lemma_ah(pos, p.w, 1);
    lemma_ah(pos, p.w, p.la);
}
pub proof fn lemma_win_start(p: LzP, x: Seq<u8>, len: int, b: Seq<u8>)
    requires
        p.ok(), b.len() == p.w, 0 <= len <= p.la, len <= x.len(),
        forall|i: int| 0 <= i < p.w - p.la ==> b[i] == p.pre,
        forall|i: int| 0 <= i < len ==> b[p.w - p.la + i] == x[i],
    ensures enc_win(p, x, 0, len, b, p.w - p.la)
{
    reveal(enc_win);
    let pos = p.w - p.la;
    assert(x.take(0) =~= Seq::<u8>::empty());
    assert forall|i: int| 0 <= i < len implies #[trigger] ah_at(b, pos, x, 0, i) by { assert(b[p.w - p.la + i] == x[i]); }
    assert forall|d: int| 1 <= d <= p.w - p.la implies #[trigger] hist_at(p, x.take(0), b, pos, d) by { assert(b[ring_at(pos, p.w, d)] == p.pre); }
}
/// the next byte of x comes in at the end, one byte is passed
pub proof fn lemma_win_push(p: LzP, x: Seq<u8>, done: int, b: Seq<u8>, pos: int, c: u8)
    requires enc_win(p, x, done, p.la, b, pos), done + p.la < x.len(), c == x[done + p.la]
    ensures enc_win(p, x, done + 1, p.la, b.update(ring_ah(pos, p.w, p.la), c), ring_ah(pos, p.w, 1))
{
    reveal(enc_win);
    let b2 = b.update(ring_ah(pos, p.w, p.la), c);
    let q = ring_ah(pos, p.w, 1);
    assert forall|i: int| 0 <= i < p.la implies #[trigger] ah_at(b2, q, x, done + 1, i) by { if i + 1 < p.la { assert(ah_at(b, pos, x, done, i + 1)); } }
    lemma_win_shift(p, x, done, p.la, b, pos, b2);
}
pub proof fn lemma_win_shift(p: LzP, x: Seq<u8>, done: int, len: int, b: Seq<u8>, pos: int, b2: Seq<u8>)
    requires enc_win(p, x, done, len, b, pos), len >= 1, b2.len() == b.len(), forall|i: int| 0 <= i < b.len() && i != ring_ah(pos, p.w, p.la) ==> b2[i] == b[i]
    ensures forall|d: int| 1 <= d <= p.w - p.la ==> #[trigger] hist_at(p, x.take(done + 1), b2, ring_ah(pos, p.w, 1), d)
{
    reveal(enc_win);
    let q = ring_ah(pos, p.w, 1);
    assert forall|d: int| 1 <= d <= p.w - p.la implies #[trigger] hist_at(p, x.take(done + 1), b2, q, d) by {
        if d == 1 { assert(ah_at(b, pos, x, done, 0)); assert(ring_at(q, p.w, 1) == pos); }
        else { assert(hist_at(p, x.take(done), b, pos, d - 1)); assert(ring_at(q, p.w, d) == ring_at(pos, p.w, d - 1)); }
    }
}
/// no byte comes in any more
pub proof fn lemma_win_pass(p: LzP, x: Seq<u8>, done: int, len: int, b: Seq<u8>, pos: int)
    requires enc_win(p, x, done, len, b, pos), len >= 1
    ensures enc_win(p, x, done + 1, len - 1, b, ring_ah(pos, p.w, 1))
{
    reveal(enc_win);
    let q = ring_ah(pos, p.w, 1);
    assert forall|i: int| 0 <= i < len - 1 implies #[trigger] ah_at(b, q, x, done + 1, i) by { assert(ah_at(b, pos, x, done, i + 1)); }
    lemma_win_shift(p, x, done, len, b, pos, b);
}

/// how far k lies behind pos
pub open spec fn ring_back(pos: int, w: int, k: int) -> int { if k <= pos { pos - k } else { pos - k + w } }
pub proof fn lemma_ring_back(pos: int, w: int, k: int)
    requires 0 <= pos < w, 0 <= k < w
    ensures (pos - k) % w == ring_back(pos, w, k), 0 <= ring_back(pos, w, k) < w
{
    lemma_ring_mod(pos - k, w, if k <= pos { 0 } else { 1 });
}
pub open spec fn near_at(t: TV, pos: int, w: int, lo: int, hi: int, k: int) -> bool { gn_reg(t.nodes[k]) ==> lo <= ring_back(pos, w, k) <= hi }
/// the index has positions only that lie so far behind pos
#[verifier::opaque]
pub open spec fn near(t: TV, pos: int, w: int, lo: int, hi: int) -> bool {
    t.nodes.len() == w && 0 <= pos < w && forall|k: int| 0 <= k < w ==> #[trigger] near_at(t, pos, w, lo, hi, k)
}
/// an index without position q stays in order when the byte there changes
pub proof fn lemma_inv_set(t: TV, b: Seq<u8>, q: int, c: u8)
    requires tv_inv(t, b), 0 <= q < b.len(), !gn_reg(t.nodes[q])
    ensures tv_inv(t, b.update(q, c))
{
    let b2 = b.update(q, c);
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_node_col(t, b2, k) by {
        assert(tv_node_col(t, b, k));
        lemma_tv_node(t, rk, k);
        assert(tv_bare(t, q));
    }
}
/// one position leaves the index at the far end, and pos moves on
pub proof fn lemma_near_step(t0: TV, b: Seq<u8>, p: LzP, pos: int, t: TV)
    requires p.ok(), b.len() == p.w, near(t0, pos, p.w, 0, p.w - p.la), del_post(t0, b, ring_ah(pos, p.w, p.la), t)
    ensures
        near(t, ring_ah(pos, p.w, 1), p.w, 1, p.w - p.la), tv_inv(t, b), !gn_reg(t.nodes[ring_ah(pos, p.w, p.la)]),
        !gn_reg(t.nodes[ring_ah(pos, p.w, 1)]),
{
    reveal(near);
    reveal(del_post);
    let q = ring_ah(pos, p.w, 1);
    assert forall|k: int| 0 <= k < p.w implies #[trigger] near_at(t, q, p.w, 1, p.w - p.la, k) by { assert(near_at(t0, pos, p.w, 0, p.w - p.la, k)); }
    assert(near_at(t, q, p.w, 1, p.w - p.la, q));
}
pub proof fn lemma_near_ins(t0: TV, b: Seq<u8>, w: int, hi: int, pos: int, t: TV)
    requires b.len() == w, near(t0, pos, w, 1, hi), ins_post(t0, b, pos, t), hi >= 0
    ensures near(t, pos, w, 0, hi), tv_inv(t, b)
{
    reveal(near);
    reveal(ins_post);
    assert forall|k: int| 0 <= k < w implies #[trigger] near_at(t, pos, w, 0, hi, k) by { assert(near_at(t0, pos, w, 1, hi, k)); }
}
pub proof fn lemma_near_free(t: TV, pos: int, w: int, hi: int)
    requires near(t, pos, w, 1, hi)
    ensures !gn_reg(t.nodes[pos])
{
    reveal(near);
    assert(near_at(t, pos, w, 1, hi, pos));
}
// before the first byte: positions from pos up to (not with) start
pub open spec fn within_at(t: TV, lo: int, hi: int, k: int) -> bool { gn_reg(t.nodes[k]) ==> lo <= k < hi }
#[verifier::opaque]
pub open spec fn within(t: TV, lo: int, hi: int) -> bool { forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] within_at(t, lo, hi, k) }
pub proof fn lemma_within_start(t: TV, w: int, b: Seq<u8>, s: int)
    requires t.nodes == Seq::new(w as nat, |i: int| gn_empty()), t.roots == Seq::new(256, |i: int| None::<usize>), 0 <= w <= 0x1_0000, b.len() == w
    ensures within(t, s, s), tv_inv(t, b)
{
    reveal(within);
    let rk = Seq::new(w as nat, |i: int| 0int);
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] within_at(t, s, s, k) by {}
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_node_ok(t, rk, k) by {}
    assert forall|k: int| 0 <= k < t.roots.len() implies #[trigger] tv_root_ok(t, k) by {}
    assert(tv_rk(t, rk));
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_bare(t, k) by {}
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_node_col(t, b, k) by {}
}
pub proof fn lemma_within_free(t: TV, lo: int, hi: int, k: int)
    requires within(t, lo, hi), 0 <= k < t.nodes.len(), k < lo || k >= hi
    ensures !gn_reg(t.nodes[k])
{
    reveal(within);
    assert(within_at(t, lo, hi, k));
}
pub proof fn lemma_within_ins(t0: TV, b: Seq<u8>, lo: int, hi: int, t: TV)
    requires within(t0, lo + 1, hi), ins_post(t0, b, lo, t), 0 <= lo < hi, t0.nodes.len() == b.len()
    ensures within(t, lo, hi), tv_inv(t, b), t.nodes.len() == b.len()
{
    reveal(within);
    reveal(ins_post);
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] within_at(t, lo, hi, k) by { assert(within_at(t0, lo + 1, hi, k)); }
}
pub proof fn lemma_within_near(t: TV, w: int, lo: int, pos: int, hi: int)
    requires within(t, lo, pos), t.nodes.len() == w, 0 <= lo, 0 <= pos < w, pos - lo <= hi
    ensures near(t, pos, w, 1, hi)
{
    reveal(within);
    reveal(near);
    assert forall|k: int| 0 <= k < w implies #[trigger] near_at(t, pos, w, 1, hi, k) by { assert(within_at(t, lo, pos, k)); }
}

/// copying n bytes (up to m) from off + 1 places back gives the next bytes of x
#[verifier::opaque]
pub open spec fn can_copy(p: LzP, x: Seq<u8>, done: int, m: int, off: int) -> bool {
    m > 0 ==> 0 <= off < p.w && off < 4096 && forall|n: int| 0 <= n <= m ==> #[trigger] lz_copy(p, x.take(done), off + 1, n as nat) == x.take(done + n)
}
pub proof fn lemma_copy_run(p: LzP, x: Seq<u8>, done: int, len: int, b: Seq<u8>, pos: int, d: int, n: int)
    requires enc_win(p, x, done, len, b, pos), 1 <= d <= p.w - p.la, 0 <= n <= len, same_run(b, pos, ring_at(pos, p.w, d), n)
    ensures lz_copy(p, x.take(done), d, n as nat) == x.take(done + n)
    decreases n
{
    if n > 0 {
        let i = n - 1;
        lemma_copy_run(p, x, done, len, b, pos, d, i);
        let o = x.take(done + i);
        reveal(enc_win);
        let c = ring_at(pos, p.w, d);
        assert(same_at(b, pos, c, i));
        lemma_ah(pos, p.w, i);
        lemma_ah(c, p.w, i);
        assert(ah_at(b, pos, x, done, i));
        assert(b[ring_ah(pos, p.w, i)] == x[done + i]);
        assert(b[ring_ah(c, p.w, i)] == x[done + i]);
        if i < d {
            assert(hist_at(p, x.take(done), b, pos, d - i));
            assert(ring_ah(c, p.w, i) == ring_at(pos, p.w, d - i));
        } else {
            assert(ah_at(b, pos, x, done, i - d));
            assert(ring_ah(c, p.w, i) == ring_ah(pos, p.w, i - d));
        }
        assert(lz_win(p, o, d) == x[done + i]);
        assert(x.take(done + n) =~= o.push(x[done + i]));
    } else {
        assert(x.take(done + 0) =~= x.take(done));
    }
}
pub proof fn lemma_can_copy(t: TV, p: LzP, x: Seq<u8>, done: int, len: int, b: Seq<u8>, pos: int, ml: int, off: int)
    requires enc_win(p, x, done, len, b, pos), near(t, pos, p.w, 1, p.w - p.la), match_found(t, b, pos, ml, off), ml >= 0
    ensures can_copy(p, x, done, if ml < len { ml } else { len }, off)
{
    reveal(can_copy);
    reveal(match_found);
    let m = if ml < len { ml } else { len };
    if m > 0 {
        let c = choose|c: int| match_from(t, b, pos, ml, off, c);
        assert(match_from(t, b, pos, ml, off, c));
        assert(b.len() == p.w && 0 <= pos < p.w && p.ok()) by { reveal(enc_win); }
        assert(near_at(t, pos, p.w, 1, p.w - p.la, c)) by { reveal(near); }
        lemma_ring_back(pos, p.w, c);
        let d = off + 1;
        assert(ring_at(pos, p.w, d) == c);
        assert forall|n: int| 0 <= n <= m implies #[trigger] lz_copy(p, x.take(done), off + 1, n as nat) == x.take(done + n) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] same_at(b, pos, c, i) by {}
            lemma_copy_run(p, x, done, len, b, pos, d, n);
        }
    }
}
pub proof fn lemma_can_copy_less(p: LzP, x: Seq<u8>, done: int, m: int, off: int, n: int)
    requires can_copy(p, x, done, m, off), 0 < n <= m
    ensures 0 <= off < p.w, off < 4096, lz_copy(p, x.take(done), off + 1, n as nat) == x.take(done + n)
{
    reveal(can_copy);
}
