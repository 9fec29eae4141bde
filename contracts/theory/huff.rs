// ---------------------------------------------------------------- adaptive Huffman model of LZHUF

/// The model: nodes 0..2n-1 in ascending order of frequency, the last one is the root; `son` of a branch is its left
/// son (the right son is the next node), `son` of a leaf is 2n-1 + symbol.  One more frequency entry is a sentinel.
pub struct HT { pub n: int, pub freq: Seq<usize>, pub son: Seq<usize> }
impl HT {
    pub open spec fn nn(self) -> int { 2 * self.n - 1 }
    pub open spec fn root(self) -> int { 2 * self.n - 2 }
    pub open spec fn leaf(self, i: int) -> bool { self.son[i] >= self.nn() }
}
pub open spec fn is_par(t: HT, p: int, x: int) -> bool { 0 <= p < t.nn() && t.son[p] == x - x % 2 }
pub open spec fn ht_par(t: HT, x: int) -> int { choose|p: int| is_par(t, p, x) }
pub open spec fn is_leaf_of(t: HT, p: int, s: int) -> bool { 0 <= p < t.nn() && t.son[p] == t.nn() + s }
pub open spec fn ht_leaf_of(t: HT, s: int) -> int { choose|p: int| is_leaf_of(t, p, s) }

/// last node of the run of nodes that have the same frequency as c
pub open spec fn ht_top(freq: Seq<usize>, c: int) -> int
    decreases freq.len() - c
{
    if 0 <= c && c + 1 < freq.len() && freq[c + 1] <= freq[c] { ht_top(freq, c + 1) } else { c }
}
/// increment and exchange for one node
pub open spec fn ht_step(t: HT, c: int) -> HT {
    let l = ht_top(t.freq, c);
    HT {
        n: t.n,
        freq: t.freq.update(l, (t.freq[l] + 1) as usize),
        son: t.son.update(c, t.son[l]).update(l, t.son[c]),
    }
}
/// increment all nodes from c up to the root
pub open spec fn ht_bump(t: HT, c: int) -> HT
    decreases t.nn() - c
{
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    let p = ht_par(t1, l);
    if l >= t.root() || p <= c || p >= t.nn() { t1 } else { ht_bump(t1, p) }
}
/// where a new branch goes: behind everything that is not greater
pub open spec fn ins_pos(freq: Seq<usize>, f: int, k: int) -> int
    decreases k
{
    if k > 0 && f < freq[k - 1] { ins_pos(freq, f, k - 1) } else { k }
}
/// join the nodes two by two, from the left
pub open spec fn ht_join(n: int, m: int, fr: Seq<usize>, so: Seq<usize>) -> (Seq<usize>, Seq<usize>)
    decreases 2 * n - 1 - m
{
    if m >= 2 * n - 1 || m < n { (fr, so) } else {
        let i = 2 * (m - n);
        let f = fr[i] + fr[i + 1];
        let k = ins_pos(fr, f, m);
        ht_join(n, m + 1, fr.insert(k, f as usize), so.insert(k, i as usize))
    }
}
pub open spec fn ht_make(n: int, fr: Seq<usize>, so: Seq<usize>) -> HT {
    let r = ht_join(n, n, fr, so);
    HT { n, freq: r.0.push(0xffff), son: r.1 }
}
/// all symbols have frequency 1
pub open spec fn ht_init(n: int) -> HT {
    ht_make(n, Seq::new(n as nat, |i: int| 1usize), Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize))
}
/// leaves among the first m nodes: halved frequencies, symbols
pub open spec fn lf_freq(t: HT, m: int) -> Seq<usize>
    decreases m
{
    if m <= 0 { Seq::empty() } else if t.leaf(m - 1) { lf_freq(t, m - 1).push(((t.freq[m - 1] + 1) / 2) as usize) } else { lf_freq(t, m - 1) }
}
pub open spec fn lf_son(t: HT, m: int) -> Seq<usize>
    decreases m
{
    if m <= 0 { Seq::empty() } else if t.leaf(m - 1) { lf_son(t, m - 1).push(t.son[m - 1]) } else { lf_son(t, m - 1) }
}
/// halve the frequencies of all leaves and build the tree anew
pub open spec fn ht_rebuild(t: HT) -> HT { ht_make(t.n, lf_freq(t, t.nn()), lf_son(t, t.nn())) }
/// the model after symbol s was coded
pub open spec fn ht_update(t: HT, s: int) -> HT {
    let t0 = if t.freq[t.root()] == 0x8000 { ht_rebuild(t) } else { t };
    ht_bump(t0, ht_leaf_of(t0, s))
}

// ---------------------------------------------------------------- well-formedness

pub open spec fn seqsum(s: Seq<int>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { seqsum(s.drop_last()) + s.last() }
}
pub open spec fn toint(s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn leafw(t: HT) -> Seq<int> { Seq::new(t.nn() as nat, |i: int| if t.leaf(i) { t.freq[i] as int } else { 0 }) }
pub open spec fn leafn(t: HT) -> Seq<int> { Seq::new(t.nn() as nat, |i: int| if t.leaf(i) { 1int } else { 0 }) }

pub open spec fn ht_dims(t: HT) -> bool {
    2 <= t.n <= 2304 && t.freq.len() == 2 * t.n && t.son.len() == 2 * t.n - 1
}
pub open spec fn ht_sons(t: HT) -> bool {
    &&& forall|i: int| 0 <= i < t.nn() ==> #[trigger] t.son[i] < t.nn() + t.n && (t.son[i] < t.nn() ==> t.son[i] % 2 == 0 && t.son[i] + 1 < i)
    &&& forall|i: int, j: int| 0 <= i < j < t.nn() ==> t.son[i] != t.son[j]
}
pub open spec fn ht_links(t: HT) -> bool {
    &&& forall|x: int| 0 <= x < t.root() ==> is_par(t, #[trigger] ht_par(t, x), x)
    &&& forall|s: int| 0 <= s < t.n ==> is_leaf_of(t, #[trigger] ht_leaf_of(t, s), s)
}
pub open spec fn ht_keys(t: HT) -> bool {
    &&& forall|i: int, j: int| 0 <= i <= j < 2 * t.n ==> t.freq[i] <= t.freq[j]
    &&& t.freq[0] >= 1
    &&& t.freq[t.nn()] == 0xffff
    &&& t.freq[t.root()] <= 0x8000
}
pub open spec fn ht_sums(t: HT, c: int) -> bool {
    forall|i: int| 0 <= i < t.nn() && t.son[i] < t.nn() ==> #[trigger] t.freq[i] + (if i == c { 1int } else { 0 }) == t.freq[t.son[i] as int] + t.freq[t.son[i] + 1]
}
pub open spec fn ht_tot(t: HT, d: int) -> bool {
    seqsum(leafw(t)) == t.freq[t.root()] + d && seqsum(leafn(t)) == t.n
}
#[verifier::opaque]
pub open spec fn ht_wf(t: HT) -> bool {
    ht_dims(t) && ht_sons(t) && ht_links(t) && ht_keys(t) && ht_sums(t, -1) && ht_tot(t, 0)
}
/// well-formed but for node c, which still has to be incremented
#[verifier::opaque]
pub open spec fn ht_pend(t: HT, c: int) -> bool {
    &&& ht_dims(t) && ht_sons(t) && ht_links(t) && ht_keys(t) && ht_sums(t, c)
    &&& 0 <= c < t.nn()
    &&& t.freq[t.root()] < 0x8000
    &&& ht_tot(t, if t.leaf(c) { 0 } else { 1 })
}

pub proof fn lemma_seqsum_update(s: Seq<int>, i: int, v: int)
    requires 0 <= i < s.len()
    ensures seqsum(s.update(i, v)) == seqsum(s) - s[i] + v
    decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.update(i, v).drop_last() =~= s.drop_last());
    } else {
        assert(s.update(i, v).drop_last() =~= s.drop_last().update(i, v));
        lemma_seqsum_update(s.drop_last(), i, v);
    }
}
pub proof fn lemma_seqsum_insert(s: Seq<int>, i: int, v: int)
    requires 0 <= i <= s.len()
    ensures seqsum(s.insert(i, v)) == seqsum(s) + v
    decreases s.len()
{
    if i == s.len() {
        assert(s.insert(i, v).drop_last() =~= s);
    } else {
        assert(s.insert(i, v).drop_last() =~= s.drop_last().insert(i, v));
        lemma_seqsum_insert(s.drop_last(), i, v);
    }
}

pub proof fn lemma_top(freq: Seq<usize>, c: int)
    requires 0 <= c < freq.len(), forall|i: int, j: int| 0 <= i <= j < freq.len() ==> freq[i] <= freq[j]
    ensures
        c <= ht_top(freq, c) < freq.len(),
        freq[ht_top(freq, c)] == freq[c],
        ht_top(freq, c) + 1 < freq.len() ==> freq[ht_top(freq, c) + 1] > freq[c],
        forall|j: int| c <= j <= ht_top(freq, c) ==> freq[j] == freq[c],
    decreases freq.len() - c
{
    if c + 1 < freq.len() && freq[c + 1] <= freq[c] { lemma_top(freq, c + 1); }
}
/// the walk of `update` ends at the top of the run
pub proof fn lemma_top_is(freq: Seq<usize>, c: int, l: int)
    requires
        0 <= c <= l < freq.len(),
        forall|j: int| c < j <= l ==> freq[j] <= freq[c],
        forall|i: int, j: int| 0 <= i <= j < freq.len() ==> freq[i] <= freq[j],
        l + 1 < freq.len() ==> freq[l + 1] > freq[c],
    ensures ht_top(freq, c) == l
    decreases freq.len() - c
{
    lemma_top(freq, c);
    let m = ht_top(freq, c);
    if m < l { assert(freq[m + 1] <= freq[c]); }
    if m > l { assert(freq[l + 1] == freq[c]); }
}

pub proof fn lemma_par_unique(t: HT, p: int, x: int)
    requires ht_sons(t), is_par(t, p, x), 0 <= x < t.root()
    ensures ht_par(t, x) == p
{
    let q = ht_par(t, x);
    assert(is_par(t, q, x));
    if q < p { assert(t.son[q] != t.son[p]); }
    if p < q { assert(t.son[p] != t.son[q]); }
}
pub proof fn lemma_leaf_unique(t: HT, p: int, s: int)
    requires ht_sons(t), is_leaf_of(t, p, s)
    ensures ht_leaf_of(t, s) == p
{
    let q = ht_leaf_of(t, s);
    assert(is_leaf_of(t, q, s));
    if q < p { assert(t.son[q] != t.son[p]); }
    if p < q { assert(t.son[p] != t.son[q]); }
}
/// parents come after their sons
pub proof fn lemma_par_above(t: HT, x: int)
    requires ht_dims(t), ht_sons(t), ht_links(t), 0 <= x < t.root()
    ensures is_par(t, ht_par(t, x), x), x < ht_par(t, x) <= t.root(), t.son[ht_par(t, x)] < t.nn(), !t.leaf(ht_par(t, x)),
        t.son[ht_par(t, x)] == x || t.son[ht_par(t, x)] + 1 == x,
{
    let p = ht_par(t, x);
    assert(is_par(t, p, x));
    assert(t.son[p] < t.nn());
    assert(t.son[p] + 1 < p);
}
pub proof fn lemma_root_sons(t: HT)
    requires ht_dims(t), ht_sons(t), ht_links(t)
    ensures t.son[t.root()] == t.root() - 2
{
    lemma_par_above(t, t.root() - 1);
}
/// what is known of the node that c is exchanged with
pub proof fn lemma_pend_top(t: HT, c: int)
    requires ht_pend(t, c)
    ensures ({
        let l = ht_top(t.freq, c);
        &&& c <= l <= t.root()
        &&& t.freq[l] == t.freq[c]
        &&& t.freq[l + 1] > t.freq[c]
        &&& t.freq[l] < 0x8000
        &&& (l == t.root() ==> c == t.root())
        &&& (c < l && t.son[l] < t.nn() ==> t.son[l] + 1 < c)
        &&& (c < l && t.son[c] < t.nn() ==> t.son[c] + 1 < c)
    })
{
    reveal(ht_pend);
    lemma_top(t.freq, c);
    let l = ht_top(t.freq, c);
    assert(t.freq[c] <= t.freq[t.root()]);
    if l == t.nn() { assert(false); }
    lemma_root_sons(t);
    if l == t.root() && c != l {
        assert(t.freq[t.root()] == t.freq[t.root() - 2] + t.freq[t.root() - 1]);
        assert(t.freq[c] <= t.freq[t.root() - 1]);
        assert(t.freq[t.root() - 2] >= t.freq[0]);
        assert(false);
    }
    if c < l && t.son[l] < t.nn() {
        let e = t.son[l] as int;
        assert(t.freq[l] == t.freq[e] + t.freq[e + 1]);
        assert(t.freq[e] >= t.freq[0]);
        assert(t.freq[e + 1] < t.freq[c]);
        assert(e + 1 < c) by { if e + 1 >= c { assert(t.freq[c] <= t.freq[e + 1]); } }
    }
    if c < l && t.son[c] < t.nn() { assert(t.son[c] + 1 < c); }
}
pub proof fn lemma_step_shape(t: HT, c: int)
    requires ht_pend(t, c)
    ensures ht_dims(ht_step(t, c)), ht_sons(ht_step(t, c)), ht_links(ht_step(t, c))
{
    lemma_pend_top(t, c);
    reveal(ht_pend);
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    assert forall|i: int| 0 <= i < t1.nn() implies #[trigger] t1.son[i] < t1.nn() + t1.n && (t1.son[i] < t1.nn() ==> t1.son[i] % 2 == 0 && t1.son[i] + 1 < i) by {
        assert(t.son[i] < t.nn() + t.n);
        assert(t.son[c] < t.nn() + t.n);
        assert(t.son[l] < t.nn() + t.n);
    }
    let sw = |i: int| if i == c { l } else if i == l { c } else { i };
    assert forall|i: int| 0 <= i < t.nn() implies #[trigger] t1.son[i] == t.son[sw(i)] by {}
    assert forall|i: int, j: int| 0 <= i < j < t1.nn() implies t1.son[i] != t1.son[j] by {
        let a = sw(i);
        let b = sw(j);
        assert(t1.son[i] == t.son[a] && t1.son[j] == t.son[b]);
        if a < b { assert(t.son[a] != t.son[b]); } else { assert(t.son[b] != t.son[a]); }
    }
    assert forall|x: int| 0 <= x < t1.root() implies is_par(t1, #[trigger] ht_par(t1, x), x) by {
        let p = ht_par(t, x);
        assert(is_par(t, p, x));
        assert(t1.son[sw(p)] == t.son[sw(sw(p))]);
        assert(is_par(t1, sw(p), x));
    }
    assert forall|s: int| 0 <= s < t1.n implies is_leaf_of(t1, #[trigger] ht_leaf_of(t1, s), s) by {
        let p = ht_leaf_of(t, s);
        assert(is_leaf_of(t, p, s));
        assert(t1.son[sw(p)] == t.son[sw(sw(p))]);
        assert(is_leaf_of(t1, sw(p), s));
    }
}
pub proof fn lemma_step_tot(t: HT, c: int)
    requires ht_pend(t, c)
    ensures
        seqsum(leafw(ht_step(t, c))) == seqsum(leafw(t)) + (if t.leaf(c) { 1int } else { 0 }),
        seqsum(leafn(ht_step(t, c))) == seqsum(leafn(t)),
{
    lemma_pend_top(t, c);
    reveal(ht_pend);
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    let g = leafw(t);
    let d: int = if t.leaf(c) { 1 } else { 0 };
    let g1 = g.update(c, g[l]);
    let g2 = g1.update(l, g[c] + d);
    lemma_seqsum_update(g, c, g[l]);
    lemma_seqsum_update(g1, l, g[c] + d);
    assert(leafw(t1) =~= g2);
    let h = leafn(t);
    lemma_seqsum_update(h, c, h[l]);
    lemma_seqsum_update(h.update(c, h[l]), l, h[c]);
    assert(leafn(t1) =~= h.update(c, h[l]).update(l, h[c]));
}
pub proof fn lemma_step_keys(t: HT, c: int)
    requires ht_pend(t, c)
    ensures ht_keys(ht_step(t, c))
{
    lemma_pend_top(t, c);
    reveal(ht_pend);
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    assert(t.freq[c] <= t.freq[t.root()]);
    assert forall|i: int, j: int| 0 <= i <= j < 2 * t.n implies t1.freq[i] <= t1.freq[j] by {
        assert(t.freq[i] <= t.freq[j]);
        if i == l && j > l { assert(t.freq[l + 1] <= t.freq[j]); }
    }
}
pub proof fn lemma_ht_step(t: HT, c: int)
    requires ht_pend(t, c)
    ensures ({
        let l = ht_top(t.freq, c);
        let t1 = ht_step(t, c);
        let p = ht_par(t1, l);
        if l == t.root() { ht_wf(t1) } else { l < p <= t.root() && is_par(t1, p, l) && ht_pend(t1, p) && !t1.leaf(p) && p > 0 }
    })
{
    lemma_pend_top(t, c);
    lemma_step_shape(t, c);
    lemma_step_keys(t, c);
    lemma_step_tot(t, c);
    reveal(ht_pend);
    reveal(ht_wf);
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    lemma_root_sons(t);
    if l != t.root() {
        let p = ht_par(t1, l);
        lemma_par_above(t1, l);
        assert(p != c && p != l);
        assert(t.son[p] == t1.son[p]);
        assert forall|i: int| 0 <= i < t1.nn() && t1.son[i] < t1.nn() implies #[trigger] t1.freq[i] + (if i == p { 1int } else { 0 }) == t1.freq[t1.son[i] as int] + t1.freq[t1.son[i] + 1] by {
            lemma_step_sum(t, c, i, p);
        }
        assert(t1.freq[t1.root()] == t.freq[t.root()]);
    } else {
        assert forall|i: int| 0 <= i < t1.nn() && t1.son[i] < t1.nn() implies #[trigger] t1.freq[i] + (if i == -1 { 1int } else { 0 }) == t1.freq[t1.son[i] as int] + t1.freq[t1.son[i] + 1] by {
            let e = t.son[i] as int;
            assert(t1.son[i] == e);
            assert(e + 1 < i);
            assert(t.freq[i] + (if i == c { 1int } else { 0 }) == t.freq[e] + t.freq[e + 1]);
        }
    }
}
/// one equation of ht_sums after a step
pub proof fn lemma_step_sum(t: HT, c: int, i: int, p: int)
    requires
        ht_pend(t, c), 0 <= i < t.nn(), ht_step(t, c).son[i] < t.nn(),
        p == ht_par(ht_step(t, c), ht_top(t.freq, c)), ht_top(t.freq, c) != t.root(),
    ensures ({
        let t1 = ht_step(t, c);
        t1.freq[i] + (if i == p { 1int } else { 0 }) == t1.freq[t1.son[i] as int] + t1.freq[t1.son[i] + 1]
    })
{
    lemma_pend_top(t, c);
    lemma_step_shape(t, c);
    reveal(ht_pend);
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    lemma_par_above(t1, l);
    let o = if i == c { l } else if i == l { c } else { i };
    let e = t.son[o] as int;
    assert(t1.son[i] == e);
    assert(t.freq[o] + (if o == c { 1int } else { 0 }) == t.freq[e] + t.freq[e + 1]);
    assert(t.freq[o] == t.freq[i]);
    if i == c || i == l {
        // sons of both stay below c
        if c < l { assert(e + 1 < c); } else { assert(e + 1 < i); }
        assert(t1.freq[e] == t.freq[e] && t1.freq[e + 1] == t.freq[e + 1]);
    } else {
        // the parent of l gains 1
        if e == l || e + 1 == l {
            assert(e % 2 == 0);
            assert(is_par(t1, i, l));
            lemma_par_unique(t1, i, l);
        } else if i == p {
            assert(is_par(t1, p, l));
            assert(false);
        }
    }
}
/// incrementing a leaf and all its ancestors keeps the tree well-formed
pub proof fn lemma_bump_wf(t: HT, c: int)
    requires ht_pend(t, c)
    ensures ht_wf(ht_bump(t, c)), ht_bump(t, c).n == t.n
    decreases t.nn() - c
{
    lemma_pend_top(t, c);
    lemma_ht_step(t, c);
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    if l < t.root() {
        lemma_bump_wf(t1, ht_par(t1, l));
    }
}

// ---------------------------------------------------------------- building

/// a tree under construction: m nodes exist, 2(m-n) of them have a parent
pub open spec fn hb_dims(n: int, m: int, fr: Seq<usize>, so: Seq<usize>) -> bool {
    2 <= n <= 2304 && n <= m <= 2 * n - 1 && fr.len() == m && so.len() == m
}
pub open spec fn hb_sons(n: int, m: int, so: Seq<usize>) -> bool {
    let nn = 2 * n - 1;
    &&& forall|i: int| 0 <= i < m ==> #[trigger] so[i] < nn + n && (so[i] < nn ==> so[i] % 2 == 0 && so[i] + 1 < i && so[i] < 2 * (m - n))
    &&& forall|i: int, j: int| 0 <= i < j < m ==> so[i] != so[j]
}
pub open spec fn hb_has(so: Seq<usize>, p: int, v: int) -> bool { 0 <= p < so.len() && so[p] == v }
pub open spec fn hb_ex(so: Seq<usize>, v: int) -> bool { exists|p: int| hb_has(so, p, v) }
pub open spec fn hb_pos(so: Seq<usize>, v: int) -> int { choose|p: int| hb_has(so, p, v) }
pub open spec fn hb_links(n: int, m: int, so: Seq<usize>) -> bool {
    &&& forall|e: int| 0 <= e < 2 * (m - n) && e % 2 == 0 ==> #[trigger] hb_ex(so, e)
    &&& forall|s: int| 0 <= s < n ==> #[trigger] hb_ex(so, 2 * n - 1 + s)
}
pub open spec fn hb_keys(fr: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i <= j < fr.len() ==> fr[i] <= fr[j]
    &&& fr.len() > 0 && fr[0] >= 1
    &&& forall|i: int| 0 <= i < fr.len() ==> #[trigger] fr[i] <= 0x8000
}
pub open spec fn hb_sums(n: int, fr: Seq<usize>, so: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < so.len() && so[i] < 2 * n - 1 ==> #[trigger] fr[i] == fr[so[i] as int] + fr[so[i] + 1]
}
pub open spec fn hb_leafw(n: int, fr: Seq<usize>, so: Seq<usize>) -> Seq<int> { Seq::new(so.len(), |i: int| if so[i] >= 2 * n - 1 { fr[i] as int } else { 0 }) }
pub open spec fn hb_leafn(n: int, so: Seq<usize>) -> Seq<int> { Seq::new(so.len(), |i: int| if so[i] >= 2 * n - 1 { 1int } else { 0 }) }
#[verifier::opaque]
pub open spec fn hb_wf(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>) -> bool {
    &&& hb_dims(n, m, fr, so) && hb_sons(n, m, so) && hb_links(n, m, so) && hb_keys(fr) && hb_sums(n, fr, so)
    &&& 1 <= tot <= 0x7fff
    &&& seqsum(toint(fr.skip(2 * (m - n)))) == tot
    &&& seqsum(hb_leafw(n, fr, so)) == tot
    &&& seqsum(hb_leafn(n, so)) == n
}
pub proof fn lemma_ins_pos(fr: Seq<usize>, f: int, k: int)
    requires 0 <= k <= fr.len()
    ensures 0 <= ins_pos(fr, f, k) <= k,
        ins_pos(fr, f, k) > 0 ==> f >= fr[ins_pos(fr, f, k) - 1],
        forall|j: int| ins_pos(fr, f, k) <= j < k ==> f < fr[j],
    decreases k
{
    if k > 0 && f < fr[k - 1] { lemma_ins_pos(fr, f, k - 1); }
}
pub proof fn lemma_ins_pos_is(fr: Seq<usize>, f: int, k: int, q: int)
    requires 0 <= q <= k <= fr.len(), q > 0 ==> f >= fr[q - 1], forall|j: int| q <= j < k ==> f < fr[j],
    ensures ins_pos(fr, f, k) == q
    decreases k
{
    if k > q { lemma_ins_pos_is(fr, f, k - 1, q); }
}
pub proof fn lemma_seqsum_nonneg(s: Seq<int>, b: int)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] >= 0, 0 <= b < s.len()
    ensures seqsum(s) >= s[b], seqsum(s) >= 0
    decreases s.len()
{
    if s.len() > 1 {
        if b < s.len() - 1 { lemma_seqsum_nonneg(s.drop_last(), b); } else { lemma_seqsum_nonneg(s.drop_last(), 0); }
    } else {
        assert(s.drop_last().len() == 0);
        assert(seqsum(s.drop_last()) == 0);
        assert(s.last() == s[0]);
    }
}
pub proof fn lemma_seqsum_skip2(s: Seq<int>)
    requires s.len() >= 2
    ensures seqsum(s) == s[0] + s[1] + seqsum(s.skip(2))
    decreases s.len()
{
    reveal_with_fuel(seqsum, 3);
    if s.len() > 2 {
        lemma_seqsum_skip2(s.drop_last());
        assert(s.drop_last().skip(2) =~= s.skip(2).drop_last());
    } else {
        assert(s.skip(2) =~= Seq::<int>::empty());
        assert(s.drop_last().drop_last() =~= Seq::<int>::empty());
    }
}
pub proof fn lemma_join_keys(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>, f: int, k: int)
    requires
        hb_wf(n, m, tot, fr, so), m < 2 * n - 1, f == fr[2 * (m - n)] + fr[2 * (m - n) + 1], 2 * (m - n) + 1 < k <= m,
        f >= fr[k - 1], forall|j: int| k <= j < m ==> f < fr[j], 1 <= f <= tot,
    ensures hb_keys(fr.insert(k, f as usize))
{
    reveal(hb_wf);
    let i = 2 * (m - n);
    let fr1 = fr.insert(k, f as usize);
    let so1 = so.insert(k, i as usize);
    let old = |j: int| if j < k { j } else { j - 1 };
    assert forall|j: int| 0 <= j < m + 1 && j != k implies #[trigger] so1[j] == so[old(j)] && fr1[j] == fr[old(j)] by {}
    assert forall|a: int, b: int| 0 <= a <= b < fr1.len() implies fr1[a] <= fr1[b] by {
        if a < k && b > k { assert(fr[a] <= fr[b - 1]); }
        if a < k && b < k { assert(fr[a] <= fr[b]); }
        if a > k && b > k { assert(fr[a - 1] <= fr[b - 1]); }
        if a < k && b == k { assert(fr[a] <= fr[k - 1]); }
        if a == k && b > k { assert(f < fr[b - 1]); }
    }
    assert forall|a: int| 0 <= a < fr1.len() implies #[trigger] fr1[a] <= 0x8000 by { if a != k { assert(fr[old(a)] <= 0x8000); } }
}
pub proof fn lemma_join_sons(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>, f: int, k: int)
    requires
        hb_wf(n, m, tot, fr, so), m < 2 * n - 1, f == fr[2 * (m - n)] + fr[2 * (m - n) + 1], 2 * (m - n) + 1 < k <= m,
        f >= fr[k - 1], forall|j: int| k <= j < m ==> f < fr[j], 1 <= f <= tot,
    ensures hb_sons(n, m + 1, so.insert(k, (2 * (m - n)) as usize))
{
    reveal(hb_wf);
    let i = 2 * (m - n);
    let fr1 = fr.insert(k, f as usize);
    let so1 = so.insert(k, i as usize);
    let old = |j: int| if j < k { j } else { j - 1 };
    assert forall|j: int| 0 <= j < m + 1 && j != k implies #[trigger] so1[j] == so[old(j)] && fr1[j] == fr[old(j)] by {}
    assert forall|j: int| 0 <= j < m + 1 implies #[trigger] so1[j] < 2 * n - 1 + n && (so1[j] < 2 * n - 1 ==> so1[j] % 2 == 0 && so1[j] + 1 < j && so1[j] < 2 * (m + 1 - n)) by {
        if j != k { assert(so[old(j)] < 2 * n - 1 + n); }
    }
    assert forall|a: int, b: int| 0 <= a < b < m + 1 implies so1[a] != so1[b] by {
        if a != k && b != k { assert(so[old(a)] != so[old(b)]); }
        if a == k { assert(so[old(b)] < 2 * n - 1 + n); }
        if b == k { assert(so[old(a)] < 2 * n - 1 + n); }
    }
}
pub proof fn lemma_join_links(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>, f: int, k: int)
    requires
        hb_wf(n, m, tot, fr, so), m < 2 * n - 1, f == fr[2 * (m - n)] + fr[2 * (m - n) + 1], 2 * (m - n) + 1 < k <= m,
        f >= fr[k - 1], forall|j: int| k <= j < m ==> f < fr[j], 1 <= f <= tot,
    ensures hb_links(n, m + 1, so.insert(k, (2 * (m - n)) as usize))
{
    reveal(hb_wf);
    let i = 2 * (m - n);
    let fr1 = fr.insert(k, f as usize);
    let so1 = so.insert(k, i as usize);
    let old = |j: int| if j < k { j } else { j - 1 };
    assert forall|j: int| 0 <= j < m + 1 && j != k implies #[trigger] so1[j] == so[old(j)] && fr1[j] == fr[old(j)] by {}
    assert forall|e: int| 0 <= e < 2 * (m + 1 - n) && e % 2 == 0 implies #[trigger] hb_ex(so1, e) by {
        if e == i { assert(hb_has(so1, k, e)); } else {
            assert(hb_ex(so, e));
            let p = hb_pos(so, e);
            assert(hb_has(so, p, e));
            assert(hb_has(so1, if p < k { p } else { p + 1 }, e));
        }
    }
    assert forall|s: int| 0 <= s < n implies #[trigger] hb_ex(so1, 2 * n - 1 + s) by {
        assert(hb_ex(so, 2 * n - 1 + s));
        let p = hb_pos(so, 2 * n - 1 + s);
        assert(hb_has(so, p, 2 * n - 1 + s));
        assert(hb_has(so1, if p < k { p } else { p + 1 }, 2 * n - 1 + s));
    }
}
pub proof fn lemma_join_sums(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>, f: int, k: int)
    requires
        hb_wf(n, m, tot, fr, so), m < 2 * n - 1, f == fr[2 * (m - n)] + fr[2 * (m - n) + 1], 2 * (m - n) + 1 < k <= m,
        f >= fr[k - 1], forall|j: int| k <= j < m ==> f < fr[j], 1 <= f <= tot,
    ensures hb_sums(n, fr.insert(k, f as usize), so.insert(k, (2 * (m - n)) as usize))
{
    reveal(hb_wf);
    let i = 2 * (m - n);
    let fr1 = fr.insert(k, f as usize);
    let so1 = so.insert(k, i as usize);
    let old = |j: int| if j < k { j } else { j - 1 };
    assert forall|j: int| 0 <= j < m + 1 && j != k implies #[trigger] so1[j] == so[old(j)] && fr1[j] == fr[old(j)] by {}
    assert forall|j: int| 0 <= j < so1.len() && so1[j] < 2 * n - 1 implies #[trigger] fr1[j] == fr1[so1[j] as int] + fr1[so1[j] + 1] by {
        if j != k {
            assert(so[old(j)] < i);
            assert(fr[old(j)] == fr[so[old(j)] as int] + fr[so[old(j)] + 1]);
        }
    }
}
pub proof fn lemma_join_tot(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>, f: int, k: int)
    requires
        hb_wf(n, m, tot, fr, so), m < 2 * n - 1, f == fr[2 * (m - n)] + fr[2 * (m - n) + 1], 2 * (m - n) + 1 < k <= m, 1 <= f <= tot,
    ensures ({
        let fr1 = fr.insert(k, f as usize);
        let so1 = so.insert(k, (2 * (m - n)) as usize);
        &&& seqsum(toint(fr1.skip(2 * (m + 1 - n)))) == tot
        &&& seqsum(hb_leafw(n, fr1, so1)) == tot
        &&& seqsum(hb_leafn(n, so1)) == n
    })
{
    hide(hb_sons); hide(hb_links); hide(hb_keys); hide(hb_sums); hide(seqsum);
    reveal(hb_wf);
    let i = 2 * (m - n);
    let fr1 = fr.insert(k, f as usize);
    let so1 = so.insert(k, i as usize);
    let rest = toint(fr.skip(i));
    lemma_seqsum_skip2(rest);
    assert(rest.skip(2) =~= toint(fr.skip(i + 2)));
    lemma_seqsum_insert(rest.skip(2), k - i - 2, f);
    assert(toint(fr1.skip(i + 2)) =~= rest.skip(2).insert(k - i - 2, f));
    lemma_seqsum_insert(hb_leafw(n, fr, so), k, 0);
    assert(hb_leafw(n, fr1, so1) =~= hb_leafw(n, fr, so).insert(k, 0));
    lemma_seqsum_insert(hb_leafn(n, so), k, 0);
    assert(hb_leafn(n, so1) =~= hb_leafn(n, so).insert(k, 0));
}
/// what the next join does
pub proof fn lemma_join(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>)
    requires hb_wf(n, m, tot, fr, so), m < 2 * n - 1
    ensures ({
        let i = 2 * (m - n);
        let f = fr[i] + fr[i + 1];
        let k = ins_pos(fr, f, m);
        &&& 0 <= i && i + 1 < k <= m
        &&& 1 <= f <= tot
        &&& hb_wf(n, m + 1, tot, fr.insert(k, f as usize), so.insert(k, i as usize))
    })
{
    hide(hb_sons); hide(hb_links); hide(hb_sums); hide(seqsum); hide(hb_leafw); hide(hb_leafn);
    let i = 2 * (m - n);
    let f = fr[i] + fr[i + 1];
    let k = ins_pos(fr, f, m);
    lemma_join_pos(n, m, tot, fr, so);
    lemma_join_keys(n, m, tot, fr, so, f, k);
    lemma_join_sons(n, m, tot, fr, so, f, k);
    lemma_join_links(n, m, tot, fr, so, f, k);
    lemma_join_sums(n, m, tot, fr, so, f, k);
    lemma_join_tot(n, m, tot, fr, so, f, k);
    reveal(hb_wf);
}
pub proof fn lemma_join_pos(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>)
    requires hb_wf(n, m, tot, fr, so), m < 2 * n - 1
    ensures ({
        let i = 2 * (m - n);
        let f = fr[i] + fr[i + 1];
        let k = ins_pos(fr, f, m);
        &&& 0 <= i && i + 1 < k <= m
        &&& 1 <= f <= tot
        &&& f >= fr[k - 1]
        &&& forall|j: int| k <= j < m ==> f < fr[j]
        &&& hb_dims(n, m, fr, so)
    })
{
    hide(hb_sons); hide(hb_links); hide(hb_sums); hide(seqsum); hide(hb_leafw); hide(hb_leafn);
    reveal(hb_wf);
    let i = 2 * (m - n);
    let f = fr[i] + fr[i + 1];
    let k = ins_pos(fr, f, m);
    lemma_ins_pos(fr, f, m);
    assert(fr[0] <= fr[i] <= fr[i + 1]);
    assert(i + 1 < k) by { if k <= i + 1 { assert(f < fr[i + 1]); } }
    let rest = toint(fr.skip(i));
    lemma_seqsum_skip2(rest);
    if rest.skip(2).len() > 0 { lemma_seqsum_nonneg(rest.skip(2), 0); } else { assert(seqsum(rest.skip(2)) == 0) by { reveal(seqsum); } }
}
pub proof fn lemma_join_all(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>)
    requires hb_wf(n, m, tot, fr, so)
    ensures ({
        let r = ht_join(n, m, fr, so);
        hb_wf(n, 2 * n - 1, tot, r.0, r.1)
    })
    decreases 2 * n - 1 - m
{
    if m < 2 * n - 1 {
        reveal(hb_wf);
        lemma_join(n, m, tot, fr, so);
        let i = 2 * (m - n);
        let f = fr[i] + fr[i + 1];
        let k = ins_pos(fr, f, m);
        lemma_join_all(n, m + 1, tot, fr.insert(k, f as usize), so.insert(k, i as usize));
    } else {
        reveal(hb_wf);
    }
}
/// a finished tree is well-formed
pub proof fn lemma_built(n: int, tot: int, fr: Seq<usize>, so: Seq<usize>)
    requires hb_wf(n, 2 * n - 1, tot, fr, so)
    ensures ht_wf(HT { n, freq: fr.push(0xffff), son: so }), fr[2 * n - 2] == tot
{
    reveal(hb_wf);
    reveal(ht_wf);
    let t = HT { n, freq: fr.push(0xffff), son: so };
    reveal_with_fuel(seqsum, 2);
    let last = toint(fr.skip(2 * n - 2));
    assert(last.drop_last() =~= Seq::<int>::empty());
    assert(leafw(t) =~= hb_leafw(n, fr, so));
    assert(leafn(t) =~= hb_leafn(n, so));
    assert forall|i: int, j: int| 0 <= i <= j < 2 * n implies t.freq[i] <= t.freq[j] by { if j < 2 * n - 1 { assert(fr[i] <= fr[j]); } else if i < j { assert(fr[i] <= 0x8000); } }
    assert forall|x: int| 0 <= x < t.root() implies is_par(t, #[trigger] ht_par(t, x), x) by {
        assert(hb_ex(so, x - x % 2));
        let p = hb_pos(so, x - x % 2);
        assert(hb_has(so, p, x - x % 2));
        assert(is_par(t, p, x));
    }
    assert forall|s: int| 0 <= s < n implies is_leaf_of(t, #[trigger] ht_leaf_of(t, s), s) by {
        assert(hb_ex(so, 2 * n - 1 + s));
        let p = hb_pos(so, 2 * n - 1 + s);
        assert(hb_has(so, p, 2 * n - 1 + s));
        assert(is_leaf_of(t, p, s));
    }
    assert forall|i: int| 0 <= i < t.nn() && t.son[i] < t.nn() implies #[trigger] t.freq[i] + (if i == -1 { 1int } else { 0 }) == t.freq[t.son[i] as int] + t.freq[t.son[i] + 1] by {
        assert(so[i] < 2 * (n - 1));
        assert(fr[i] == fr[so[i] as int] + fr[so[i] + 1]);
    }
}
// leaves, ready to be joined
pub proof fn lemma_leaves_ready(n: int, tot: int, fr: Seq<usize>, so: Seq<usize>)
    requires
        2 <= n <= 2304, fr.len() == n, so.len() == n,
        forall|i: int| 0 <= i < n ==> 2 * n - 1 <= #[trigger] so[i] < 3 * n - 1,
        forall|i: int, j: int| 0 <= i < j < n ==> so[i] != so[j],
        forall|s: int| 0 <= s < n ==> #[trigger] hb_ex(so, 2 * n - 1 + s),
        hb_keys(fr), seqsum(toint(fr)) == tot, tot <= 0x7fff,
    ensures hb_wf(n, n, tot, fr, so)
{
    reveal(hb_wf);
    assert(fr.skip(0) =~= fr);
    assert(hb_leafw(n, fr, so) =~= toint(fr));
    lemma_seqsum_const(hb_leafn(n, so), 1);
    assert(fr[0] >= 1);
    lemma_seqsum_nonneg(toint(fr), 0);
}
pub proof fn lemma_seqsum_const(s: Seq<int>, v: int)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == v
    ensures seqsum(s) == v * s.len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_seqsum_const(s.drop_last(), v);
        assert(v * (s.len() - 1) + v == v * s.len()) by (nonlinear_arith);
    }
}
pub proof fn lemma_init_ready(n: int)
    requires 2 <= n <= 2304
    ensures hb_wf(n, n, n, Seq::new(n as nat, |i: int| 1usize), Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize))
{
    let fr = Seq::new(n as nat, |i: int| 1usize);
    let so = Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize);
    lemma_seqsum_const(toint(fr), 1);
    assert forall|s: int| 0 <= s < n implies #[trigger] hb_ex(so, 2 * n - 1 + s) by { assert(hb_has(so, s, 2 * n - 1 + s)); }
    lemma_leaves_ready(n, n, fr, so);
}
pub proof fn lemma_init_wf(n: int)
    requires 2 <= n <= 2304
    ensures ht_wf(ht_init(n)), ht_init(n).n == n
{
    lemma_init_ready(n);
    let fr = Seq::new(n as nat, |i: int| 1usize);
    let so = Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize);
    lemma_join_all(n, n, n, fr, so);
    let r = ht_join(n, n, fr, so);
    lemma_built(n, n, r.0, r.1);
}
pub open spec fn lf_src(t: HT, m: int, v: usize, f: usize, i: int) -> bool { 0 <= i < m && t.son[i] == v && t.leaf(i) && f == (t.freq[i] + 1) / 2 }
pub open spec fn lf_ok(t: HT, m: int, v: usize, f: usize) -> bool { exists|i: int| lf_src(t, m, v, f, i) }
pub open spec fn lf_from(t: HT, m: int, v: usize, f: usize) -> int { choose|i: int| lf_src(t, m, v, f, i) }
/// the leaves of the first m nodes
pub proof fn lemma_lf(t: HT, m: int)
    requires ht_dims(t), ht_sons(t), ht_keys(t), 0 <= m <= t.nn()
    ensures
        lf_freq(t, m).len() == lf_son(t, m).len(),
        lf_freq(t, m).len() <= m,
        lf_freq(t, m).len() == seqsum(leafn(t).take(m)),
        2 * seqsum(toint(lf_freq(t, m))) <= seqsum(leafw(t).take(m)) + lf_freq(t, m).len(),
        forall|q: int| 0 <= q < lf_son(t, m).len() ==> #[trigger] lf_ok(t, m, lf_son(t, m)[q], lf_freq(t, m)[q]),
        forall|i: int, j: int| 0 <= i < j < lf_son(t, m).len() ==> lf_son(t, m)[i] != lf_son(t, m)[j],
        forall|i: int, j: int| 0 <= i <= j < lf_freq(t, m).len() ==> lf_freq(t, m)[i] <= lf_freq(t, m)[j],
        forall|i: int| 0 <= i < m && t.leaf(i) ==> exists|p: int| hb_has(lf_son(t, m), p, #[trigger] t.son[i] as int),
    decreases m
{
    if m > 0 {
        lemma_lf(t, m - 1);
        assert(leafn(t).take(m).drop_last() =~= leafn(t).take(m - 1));
        assert(leafw(t).take(m).drop_last() =~= leafw(t).take(m - 1));
        let f0 = lf_freq(t, m - 1);
        let f1 = lf_freq(t, m);
        let s0 = lf_son(t, m - 1);
        let s1 = lf_son(t, m);
        if t.leaf(m - 1) {
            assert(toint(f1).drop_last() =~= toint(f0));
            assert forall|q: int| 0 <= q < s1.len() implies #[trigger] lf_ok(t, m, s1[q], f1[q]) by {
                if q < s0.len() {
                    assert(lf_ok(t, m - 1, s0[q], f0[q]));
                    let i = lf_from(t, m - 1, s0[q], f0[q]);
                    assert(lf_src(t, m, s1[q], f1[q], i));
                } else {
                    assert(lf_src(t, m, s1[q], f1[q], m - 1));
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < s1.len() implies s1[i] != s1[j] by {
                if j == s0.len() {
                    assert(lf_ok(t, m - 1, s0[i], f0[i]));
                    let a = lf_from(t, m - 1, s0[i], f0[i]);
                    assert(t.son[a] != t.son[m - 1]);
                }
            }
            assert forall|i: int, j: int| 0 <= i <= j < f1.len() implies f1[i] <= f1[j] by {
                if j == f0.len() && i < j {
                    assert(lf_ok(t, m - 1, s0[i], f0[i]));
                    let a = lf_from(t, m - 1, s0[i], f0[i]);
                    assert(t.freq[a] <= t.freq[m - 1]);
                }
            }
            assert forall|i: int| 0 <= i < m && t.leaf(i) implies exists|p: int| hb_has(s1, p, #[trigger] t.son[i] as int) by {
                if i < m - 1 {
                    let p = hb_pos(s0, t.son[i] as int);
                    assert(hb_has(s0, p, t.son[i] as int));
                    assert(hb_has(s1, p, t.son[i] as int));
                } else {
                    assert(hb_has(s1, s0.len() as int, t.son[i] as int));
                }
            }
        } else {
            assert forall|i: int| 0 <= i < m && t.leaf(i) implies exists|p: int| hb_has(s1, p, #[trigger] t.son[i] as int) by { assert(i < m - 1); }
            assert forall|q: int| 0 <= q < s1.len() implies #[trigger] lf_ok(t, m, s1[q], f1[q]) by {
                assert(lf_ok(t, m - 1, s0[q], f0[q]));
                assert(lf_src(t, m, s1[q], f1[q], lf_from(t, m - 1, s0[q], f0[q])));
            }
        }
    } else {
        assert(leafn(t).take(0) =~= Seq::<int>::empty());
        assert(leafw(t).take(0) =~= Seq::<int>::empty());
        assert(toint(lf_freq(t, 0)) =~= Seq::<int>::empty());
    }
}
pub proof fn lemma_rebuild_ready(t: HT)
    requires ht_wf(t)
    ensures
        lf_freq(t, t.nn()).len() == t.n, lf_son(t, t.nn()).len() == t.n,
        exists|tot: int| 1 <= tot <= 0x7fff && #[trigger] hb_wf(t.n, t.n, tot, lf_freq(t, t.nn()), lf_son(t, t.nn())),
{
    reveal(ht_wf);
    let m = t.nn();
    lemma_lf(t, m);
    assert(leafn(t).take(m) =~= leafn(t));
    assert(leafw(t).take(m) =~= leafw(t));
    let f = lf_freq(t, m);
    let s = lf_son(t, m);
    assert forall|q: int| 0 <= q < s.len() implies 2 * t.n - 1 <= #[trigger] s[q] < 3 * t.n - 1 && 1 <= f[q] <= 0x4000 by {
        assert(lf_ok(t, m, s[q], f[q]));
        let a = lf_from(t, m, s[q], f[q]);
        assert(t.son[a] < t.nn() + t.n);
        assert(t.freq[0] <= t.freq[a]);
        assert(t.freq[a] <= t.freq[t.root()]);
    }
    assert forall|x: int| 0 <= x < t.n implies #[trigger] hb_ex(s, 2 * t.n - 1 + x) by {
        let a = ht_leaf_of(t, x);
        assert(is_leaf_of(t, a, x));
        assert(t.leaf(a));
        assert(t.son[a] == 2 * t.n - 1 + x);
    }
    assert forall|q: int| 0 <= q < f.len() implies #[trigger] f[q] <= 0x8000 by { assert(s[q] >= 0); }
    assert(s[0] >= 0);
    lemma_leaves_ready(t.n, seqsum(toint(f)), f, s);
    reveal(hb_wf);
}
pub proof fn lemma_rebuild_wf(t: HT)
    requires ht_wf(t)
    ensures ht_wf(ht_rebuild(t)), ht_rebuild(t).n == t.n, ht_rebuild(t).freq[t.root()] <= 0x7fff,
{
    lemma_rebuild_ready(t);
    let f = lf_freq(t, t.nn());
    let s = lf_son(t, t.nn());
    let tot = choose|tot: int| 1 <= tot <= 0x7fff && #[trigger] hb_wf(t.n, t.n, tot, f, s);
    lemma_join_all(t.n, t.n, tot, f, s);
    let r = ht_join(t.n, t.n, f, s);
    lemma_built(t.n, tot, r.0, r.1);
    assert(r.0.len() == 2 * t.n - 1) by { reveal(hb_wf); }
}
pub proof fn lemma_pend_start(t: HT, s: int)
    requires ht_wf(t), t.freq[t.root()] < 0x8000, 0 <= s < t.n
    ensures ht_pend(t, ht_leaf_of(t, s)), t.leaf(ht_leaf_of(t, s)), is_leaf_of(t, ht_leaf_of(t, s), s),
{
    reveal(ht_wf);
    reveal(ht_pend);
    let c = ht_leaf_of(t, s);
    assert(is_leaf_of(t, c, s));
    assert(ht_sums(t, c)) by {
        assert forall|i: int| 0 <= i < t.nn() && t.son[i] < t.nn() implies #[trigger] t.freq[i] + (if i == c { 1int } else { 0 }) == t.freq[t.son[i] as int] + t.freq[t.son[i] + 1] by {
            assert(i != c);
            assert(t.freq[i] + (if i == -1 { 1int } else { 0 }) == t.freq[t.son[i] as int] + t.freq[t.son[i] + 1]);
        }
    }
}
pub proof fn lemma_update_wf(t: HT, s: int)
    requires ht_wf(t), 0 <= s < t.n
    ensures ht_wf(ht_update(t, s)), ht_update(t, s).n == t.n
{
    assert(t.freq[t.root()] <= 0x8000) by { reveal(ht_wf); }
    let t0 = if t.freq[t.root()] == 0x8000 { ht_rebuild(t) } else { t };
    if t.freq[t.root()] == 0x8000 { lemma_rebuild_wf(t); }
    lemma_pend_start(t0, s);
    lemma_bump_wf(t0, ht_leaf_of(t0, s));
}

// ---------------------------------------------------------------- the arrays that turn `son` around

pub open spec fn ha_links(t: HT, parent: Seq<usize>, symb: Seq<usize>) -> bool {
    &&& parent.len() == t.nn() && symb.len() == t.n
    &&& forall|p: int| 0 <= p < t.nn() && #[trigger] t.son[p] < t.nn() ==> parent[t.son[p] as int] == p && parent[t.son[p] + 1] == p
    &&& forall|p: int| 0 <= p < t.nn() && #[trigger] t.son[p] >= t.nn() ==> symb[t.son[p] - t.nn()] == p
    &&& parent[t.root()] == 0
}
pub open spec fn create_son(n: int, k: int) -> int { 2 * (k - n) }
pub proof fn lemma_hb_sorted(n: int, m: int, tot: int, fr: Seq<usize>, so: Seq<usize>)
    requires hb_wf(n, m, tot, fr, so)
    ensures hb_keys(fr), fr.len() == m, tot <= 0x7fff,
{
    reveal(hb_wf);
}
pub proof fn lemma_wf_parts(t: HT)
    requires ht_wf(t)
    ensures ht_dims(t), ht_sons(t), ht_links(t), ht_keys(t), ht_sums(t, -1)
{
    reveal(ht_wf);
}
pub proof fn lemma_pend_parts(t: HT, c: int)
    requires ht_pend(t, c)
    ensures ht_dims(t), ht_sons(t), ht_links(t), ht_keys(t), ht_sums(t, c), 0 <= c < t.nn(), t.freq[t.root()] < 0x8000
{
    reveal(ht_pend);
}
/// links to the sons of node s now lead to node p
pub open spec fn put_links(t: HT, s: usize, p: int, parent: Seq<usize>, symb: Seq<usize>) -> (Seq<usize>, Seq<usize>) {
    if s < t.nn() { (parent.update(s as int, p as usize).update(s + 1, p as usize), symb) } else { (parent, symb.update(s - t.nn(), p as usize)) }
}
pub proof fn lemma_step_links(t: HT, c: int, parent: Seq<usize>, symb: Seq<usize>)
    requires ht_pend(t, c), ha_links(t, parent, symb)
    ensures ({
        let l = ht_top(t.freq, c);
        let a = put_links(t, t.son[c], l, parent, symb);
        let b = put_links(t, t.son[l], c, a.0, a.1);
        let t1 = ht_step(t, c);
        &&& ha_links(t1, b.0, b.1)
        &&& l < t.root() ==> b.0[l] == ht_par(t1, l)
        &&& l == c ==> ha_links(t1, parent, symb) && (l < t.root() ==> parent[l] == ht_par(t1, l))
    })
{
    lemma_pend_top(t, c);
    lemma_pend_parts(t, c);
    lemma_ht_step(t, c);
    lemma_step_shape(t, c);
    let l = ht_top(t.freq, c);
    let a = put_links(t, t.son[c], l, parent, symb);
    let b = put_links(t, t.son[l], c, a.0, a.1);
    let t1 = ht_step(t, c);
    assert(t.son[c] < t.nn() + t.n);
    assert(t.son[l] < t.nn() + t.n);
    assert forall|p: int| 0 <= p < t1.nn() && #[trigger] t1.son[p] < t1.nn() implies b.0[t1.son[p] as int] == p && b.0[t1.son[p] + 1] == p by {
        if p != c && p != l { lemma_son_apart(t, p, c); lemma_son_apart(t, p, l); }
        if c != l { lemma_son_apart(t, c, l); }
        assert(t.son[p] < t.nn() + t.n);
    }
    assert forall|p: int| 0 <= p < t1.nn() && #[trigger] t1.son[p] >= t1.nn() implies b.1[t1.son[p] - t1.nn()] == p by {
        if p != c && p != l { lemma_son_apart(t, p, c); lemma_son_apart(t, p, l); }
        if c != l { lemma_son_apart(t, c, l); }
        assert(t.son[p] < t.nn() + t.n);
    }
    if l < t.root() {
        let q = ht_par(t1, l);
        lemma_par_above(t1, l);
        assert(t1.son[q] < t1.nn());
    }
    if l == c {
        assert(t1.son =~= t.son);
    }
}
/// the sons of two nodes are different
pub proof fn lemma_son_apart(t: HT, p: int, q: int)
    requires ht_dims(t), ht_sons(t), 0 <= p < t.nn(), 0 <= q < t.nn(), p != q
    ensures t.son[p] != t.son[q], t.son[p] < t.nn() && t.son[q] < t.nn() ==> t.son[p] + 1 != t.son[q] && t.son[q] + 1 != t.son[p]
{
    if p < q { assert(t.son[p] != t.son[q]); } else { assert(t.son[q] != t.son[p]); }
    assert(t.son[p] < t.nn() + t.n);
    assert(t.son[q] < t.nn() + t.n);
}

/// the port keeps `parent` and `symb` in one array
pub open spec fn put_prnt(n: int, prnt: Seq<usize>, s: usize, p: int) -> Seq<usize> {
    if s < 2 * n - 1 { prnt.update(s as int, p as usize).update(s + 1, p as usize) } else { prnt.update(s as int, p as usize) }
}
pub proof fn lemma_put_prnt(t: HT, prnt: Seq<usize>, s: usize, p: int)
    requires t.n >= 2, prnt.len() == 3 * t.n - 1, s < 3 * t.n - 1, s < t.nn() ==> s + 1 < t.nn(),
    ensures
        put_prnt(t.n, prnt, s, p).len() == prnt.len(),
        put_links(t, s, p, prnt.take(t.nn()), prnt.skip(t.nn())) == (put_prnt(t.n, prnt, s, p).take(t.nn()), put_prnt(t.n, prnt, s, p).skip(t.nn())),
{
    let a = put_prnt(t.n, prnt, s, p);
    let b = put_links(t, s, p, prnt.take(t.nn()), prnt.skip(t.nn()));
    assert(a.take(t.nn()) =~= b.0);
    assert(a.skip(t.nn()) =~= b.1);
}

#[verifier::opaque]
pub open spec fn port_links(t: HT, prnt: Seq<usize>) -> bool {
    prnt.len() == 3 * t.n - 1 && ha_links(t, prnt.take(t.nn()), prnt.skip(t.nn()))
}
/// `prnt` after the exchange of one step
pub open spec fn port_step(t: HT, c: int, prnt: Seq<usize>) -> Seq<usize> {
    let l = ht_top(t.freq, c);
    if l == c { prnt } else { put_prnt(t.n, put_prnt(t.n, prnt, t.son[c], l), t.son[l], c) }
}
/// what one iteration of the port's `update` needs
pub proof fn lemma_port_step(t: HT, c: int, prnt: Seq<usize>)
    requires ht_pend(t, c), port_links(t, prnt)
    ensures ({
        let l = ht_top(t.freq, c);
        let t1 = ht_step(t, c);
        let q = port_step(t, c, prnt);
        let p = ht_par(t1, l);
        &&& ht_dims(t) && ht_dims(t1) && t1.n == t.n
        &&& 0 <= c <= l <= t.root() && t.freq[l] == t.freq[c] && t.freq[c] < 0x8000
        &&& t.son[c] < t.nn() + t.n && (t.son[c] < t.nn() ==> t.son[c] + 1 < t.nn())
        &&& t.son[l] < t.nn() + t.n && (t.son[l] < t.nn() ==> t.son[l] + 1 < t.nn())
        &&& q.len() == prnt.len() && prnt.len() == 3 * t.n - 1
        &&& port_links(t1, q)
        &&& if l == t.root() { q[l] == 0 && ht_wf(t1) } else { q[l] == p && 0 < p && l < p <= t.root() && ht_pend(t1, p) }
    })
{
    hide(ha_links); hide(ht_links); hide(ht_sums); hide(ht_top); hide(put_links); hide(put_prnt);
    reveal(port_links);
    lemma_pend_top(t, c);
    lemma_pend_parts(t, c);
    lemma_ht_step(t, c);
    let l = ht_top(t.freq, c);
    let t1 = ht_step(t, c);
    lemma_step_links(t, c, prnt.take(t.nn()), prnt.skip(t.nn()));
    lemma_son_room(t, c);
    lemma_son_room(t, l);
    lemma_put_prnt(t, prnt, t.son[c], l);
    lemma_put_prnt(t, put_prnt(t.n, prnt, t.son[c], l), t.son[l], c);
    let q = port_step(t, c, prnt);
    assert(ha_links(t1, q.take(t.nn()), q.skip(t.nn())));
    assert(q.take(t.nn())[l] == q[l]);
    if l == t.root() { lemma_wf_parts(t1); lemma_root_link(t1, q.take(t.nn()), q.skip(t.nn())); } else { lemma_pend_parts(t1, ht_par(t1, l)); }
}
pub proof fn lemma_root_link(t: HT, parent: Seq<usize>, symb: Seq<usize>)
    requires ha_links(t, parent, symb)
    ensures parent[t.root()] == 0
{}
pub proof fn lemma_son_room(t: HT, c: int)
    requires ht_dims(t), ht_sons(t), 0 <= c < t.nn()
    ensures t.son[c] < t.nn() + t.n && (t.son[c] < t.nn() ==> t.son[c] + 1 < t.nn())
{
    assert(t.son[c] < t.nn() + t.n);
}
