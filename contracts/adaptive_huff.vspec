## the adaptive Huffman tree of tools/adaptive_huff.rs
@module tools::adaptive_huff
impl AdaptiveHuffmanTree {
    pub open spec fn ht(&self) -> HT { HT { n: self.num_symb as int, freq: self.freq@, son: self.son@ } }
    pub open spec fn dims(&self) -> bool {
        &&& 2 <= self.num_symb <= 2304
        &&& self.max_freq == 0x8000
        &&& self.node_count == 2 * self.num_symb - 1
        &&& self.root == 2 * self.num_symb - 2
        &&& self.freq@.len() == 2 * self.num_symb
        &&& self.son@.len() == 2 * self.num_symb - 1
        &&& self.parent@.len() == 2 * self.num_symb - 1
        &&& self.symb_map@.len() == self.num_symb
    }
    pub open spec fn inv(&self) -> bool {
        self.dims() && ht_wf(self.ht()) && ha_links(self.ht(), self.parent@, self.symb_map@)
    }
}
impl AdaptiveHuffmanDecoder {
    pub open spec fn rest<R: crate::shim::io::Read>(&self, reader: &crate::shim::io::BufReader<'_, R>) -> Seq<bool> {
        rem(true, reader.data(), reader.pos(), self.bits@, self.ptr as int)
    }
    pub open spec fn io_ok<R: crate::shim::io::Read>(&self, reader: &crate::shim::io::BufReader<'_, R>) -> bool {
        self.ptr <= self.bits@.len() <= 520 && 0 <= reader.pos() <= reader.data().len()
    }
}
proof fn lemma_d_tables(i: int)
    requires 0 <= i < 256
    ensures D_LEN[i] == pos_len(i), D_CODE[i] == pos_code(i)
{
}
@fn tools::adaptive_huff::AdaptiveHuffmanTree::create
@ret r
@contract
    requires 2 <= num_symbols <= 2304,
    ensures r.inv(), r.num_symb == num_symbols, r.ht() == ht_init(num_symbols as int),
@loop 0
    invariant
        2 <= num_symbols <= 2304, ans.dims(), ans.num_symb == num_symbols,
        forall|k: int| 0 <= k < i ==> #[trigger] ans.freq@[k] == 1,
        forall|k: int| 0 <= k < i ==> #[trigger] ans.son@[k] == ans.node_count + k,
        forall|k: int| 0 <= k < i ==> #[trigger] ans.symb_map@[k] == k,
@at loop1.before
    let ghost n = num_symbols as int;
    proof {
        lemma_init_ready(n);
        assert(ans.freq@.take(n) =~= Seq::new(n as nat, |i: int| 1usize));
        assert(ans.son@.take(n) =~= Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize));
    }
@loop 1
    invariant
        n == num_symbols, 2 <= n <= 2304, ans.dims(), ans.num_symb == n,
        n <= j <= 2 * n - 1, i == 2 * (j - n),
        hb_wf(n, j as int, n, ans.freq@.take(j as int), ans.son@.take(j as int)),
        ht_join(n, j as int, ans.freq@.take(j as int), ans.son@.take(j as int))
            == ht_join(n, n, Seq::new(n as nat, |i: int| 1usize), Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize)),
        forall|k: int| 0 <= k < n ==> #[trigger] ans.freq@[k] == 1,
        forall|k: int| 0 <= k < n ==> #[trigger] ans.son@[k] == ans.node_count + k,
        forall|k: int| 0 <= k < n ==> #[trigger] ans.symb_map@[k] == k,
        forall|k: int| n <= k < j ==> #[trigger] ans.son@[k] == 2 * (k - n),
        forall|k: int| n <= k < j ==> ans.freq@[k] == ans.freq@[#[trigger] create_son(n, k)] + ans.freq@[create_son(n, k) + 1],
        forall|k: int| 0 <= k < i ==> #[trigger] ans.parent@[k] == n + k / 2,
    decreases 2 * n - 1 - j,
@at loop1.begin
    let ghost fr = ans.freq@.take(j as int);
    let ghost so = ans.son@.take(j as int);
    let ghost fall = ans.freq@;
    proof {
        let f = fr[i as int] + fr[i + 1];
        lemma_join(n, j as int, n, fr, so);
        assert(fr[j - 1] <= f) by {
            if j > n {
                let e = create_son(n, j - 1);
                assert(e + 2 == i);
                assert(fr[j - 1] == fr[e] + fr[e + 1]);
            }
            lemma_hb_sorted(n, j as int, n, fr, so);
        }
        lemma_ins_pos_is(fr, f, j as int, j as int);
    }
@at loop1.end
    proof {
        let f = fr[i - 2] + fr[i - 1];
        assert(ans.freq@.take(j as int) =~= fr.insert(j - 1, f as usize));
        assert(ans.son@.take(j as int) =~= so.insert(j - 1, (i - 2) as usize));
        assert forall|k: int| n <= k < j implies ans.freq@[k] == ans.freq@[#[trigger] create_son(n, k)] + ans.freq@[create_son(n, k) + 1] by {
            if k < j - 1 { assert(fall[k] == fall[create_son(n, k)] + fall[create_son(n, k) + 1]); }
        }
    }
@at loop1.after
    let ghost fr = ans.freq@.take(2 * n - 1);
    proof {
        assert(ans.son@.take(2 * n - 1) =~= ans.son@);
        lemma_built(n, n, fr, ans.son@);
    }
@at end
    proof {
        assert(ans.freq@ =~= fr.push(0xffff));
        assert(ans.ht() == ht_init(n));
        assert(ha_links(ans.ht(), ans.parent@, ans.symb_map@)) by {
            let t = ans.ht();
            assert forall|p: int| 0 <= p < t.nn() && #[trigger] t.son[p] < t.nn() implies ans.parent@[t.son[p] as int] == p && ans.parent@[t.son[p] + 1] == p by {
                assert(p >= n);
            }
            assert forall|p: int| 0 <= p < t.nn() && #[trigger] t.son[p] >= t.nn() implies ans.symb_map@[t.son[p] - t.nn()] == p by {
                assert(p < n);
            }
        }
    }
@end

@fn tools::adaptive_huff::AdaptiveHuffmanTree::rebuild_huff
@contract
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self).num_symb == old(self).num_symb,
        final(self).ht() == ht_rebuild(old(self).ht()),
@at start
    let ghost t0 = self.ht();
    let ghost n = self.num_symb as int;
    proof {
        lemma_wf_parts(t0);
        lemma_rebuild_ready(t0);
        lemma_rebuild_wf(t0);
    }
@loop 0
    invariant
        self.dims(), self.num_symb == n, t0.n == n, ht_dims(t0), ht_sons(t0), ht_keys(t0),
        j <= i, j == lf_freq(t0, i as int).len(),
        self.freq@.take(j as int) == lf_freq(t0, i as int),
        self.son@.take(j as int) == lf_son(t0, i as int),
        forall|q: int| i <= q < 2 * n ==> #[trigger] self.freq@[q] == t0.freq[q],
        forall|q: int| i <= q < 2 * n - 1 ==> #[trigger] self.son@[q] == t0.son[q],
        self.parent@ == old(self).parent@, self.symb_map@ == old(self).symb_map@,
@at loop0.begin
    proof { assert(t0.freq[i as int] <= t0.freq[t0.nn()]); assert(self.freq@[i as int] == t0.freq[i as int]); }
    let ghost fr0 = self.freq@;
    let ghost so0 = self.son@;
    let ghost j0 = j as int;
@at loop0.end
    proof {
        if t0.leaf(i as int) {
            assert(self.freq@.take(j as int) =~= fr0.take(j0).push(((t0.freq[i as int] + 1) / 2) as usize));
            assert(self.son@.take(j as int) =~= so0.take(j0).push(t0.son[i as int]));
        }
    }
@at loop1.before
    let ghost tot = choose|tot: int| 1 <= tot <= 0x7fff && #[trigger] hb_wf(n, n, tot, lf_freq(t0, t0.nn()), lf_son(t0, t0.nn()));
@loop 1
    invariant
        self.dims(), self.num_symb == n, t0.n == n,
        n <= j <= 2 * n - 1, i == 2 * (j - n), 1 <= tot <= 0x7fff,
        hb_wf(n, j as int, tot, self.freq@.take(j as int), self.son@.take(j as int)),
        ht_join(n, j as int, self.freq@.take(j as int), self.son@.take(j as int))
            == ht_join(n, n, lf_freq(t0, t0.nn()), lf_son(t0, t0.nn())),
        self.freq@[2 * n - 1] == 0xffff,
        self.parent@ == old(self).parent@, self.symb_map@ == old(self).symb_map@,
    decreases 2 * n - 1 - j,
@at loop1.begin
    let ghost fr = self.freq@.take(j as int);
    let ghost so = self.son@.take(j as int);
    let ghost f0 = fr[i as int] + fr[i + 1];
    let ghost k0 = ins_pos(fr, f0, j as int);
    proof {
        lemma_join_pos(n, j as int, tot, fr, so);
        lemma_join(n, j as int, tot, fr, so);
        lemma_hb_sorted(n, j as int, tot, fr, so);
    }
@loop 2
    invariant
        self.dims(), self.num_symb == n, n <= j < 2 * n - 1, i == 2 * (j - n), i + 1 <= k < j, f == f0, f0 >= fr[i + 1],
        fr.len() == j, forall|q: int| 0 <= q < j ==> #[trigger] self.freq@[q] == fr[q],
        forall|q: int| k < q < j ==> f0 < #[trigger] fr[q],
    ensures k + 1 <= j, i + 1 <= k, f0 >= fr[k as int],
    decreases k,
@at loop2.after
    proof { lemma_ins_pos_is(fr, f0, j as int, k + 1); }
@at loop3.before
    let ghost fa = self.freq@;
@loop 3
    invariant
        self.dims(), self.num_symb == n, n <= j < 2 * n - 1, i == 2 * (j - n), i + 2 <= k <= j, l == (j - k) * 2,
        vx_lo_kp == k, k <= vx_at_kp <= k + l, fa.len() == self.freq@.len(),
        forall|q: int| 0 <= q <= vx_at_kp ==> #[trigger] self.freq@[q] == fa[q],
        forall|q: int| vx_at_kp < q <= k + l ==> #[trigger] self.freq@[q] == fa[q - 1],
        forall|q: int| k + l < q < 2 * n ==> #[trigger] self.freq@[q] == fa[q],
        self.son@ == so_a, self.parent@ == old(self).parent@, self.symb_map@ == old(self).symb_map@,
    decreases vx_at_kp,
@at before "for kp in"
    let ghost so_a = self.son@;
@at before "for kp in" #1
    let ghost fb = self.freq@;
@loop 4
    invariant
        self.dims(), self.num_symb == n, n <= j < 2 * n - 1, i == 2 * (j - n), i + 2 <= k <= j, l == (j - k) * 2,
        vx_lo_kp == k, k <= vx_at_kp <= k + l, so_a.len() == self.son@.len(),
        forall|q: int| 0 <= q <= vx_at_kp && q < 2 * n - 1 ==> #[trigger] self.son@[q] == so_a[q],
        forall|q: int| vx_at_kp < q <= k + l ==> #[trigger] self.son@[q] == so_a[q - 1],
        forall|q: int| k + l < q < 2 * n - 1 ==> #[trigger] self.son@[q] == so_a[q],
        self.freq@ == fb, self.parent@ == old(self).parent@, self.symb_map@ == old(self).symb_map@,
    decreases vx_at_kp,
@at loop1.end
    proof {
        assert(self.freq@.take(j as int) =~= fr.insert(k0, f0 as usize));
        assert(self.son@.take(j as int) =~= so.insert(k0, (i - 2) as usize));
    }
@at loop1.after
    proof {
        let fr = self.freq@.take(2 * n - 1);
        assert(self.son@.take(2 * n - 1) =~= self.son@);
        assert(self.freq@ =~= fr.push(0xffff));
        lemma_built(n, tot, fr, self.son@);
        assert(self.ht() == ht_rebuild(t0));
        lemma_wf_parts(self.ht());
    }
    let ghost t1 = self.ht();
@loop 5
    invariant
        self.dims(), self.num_symb == n, self.ht() == t1, ht_dims(t1), ht_sons(t1), t1.n == n,
        forall|p: int| 0 <= p < i && #[trigger] t1.son[p] < t1.nn() ==> self.parent@[t1.son[p] as int] == p && self.parent@[t1.son[p] + 1] == p,
        forall|p: int| 0 <= p < i && #[trigger] t1.son[p] >= t1.nn() ==> self.symb_map@[t1.son[p] - t1.nn()] == p,
        self.parent@[t1.root()] == 0,
@at loop5.begin
    proof { assert(t1.son[i as int] < t1.nn() + t1.n); assert(forall|p: int| 0 <= p < i ==> t1.son[p] != t1.son[i as int]); }

@fn tools::adaptive_huff::AdaptiveHuffmanTree::update
@contract
    requires old(self).inv(), 0 <= c0 < old(self).num_symb,
    ensures
        final(self).inv(),
        final(self).num_symb == old(self).num_symb,
        final(self).ht() == ht_update(old(self).ht(), c0 as int),
@at start
    let ghost told = self.ht();
    let ghost n = self.num_symb as int;
    proof {
        lemma_wf_parts(told);
        lemma_rebuild_wf(told);
    }
@at before "let mut c ="
    let ghost t1 = self.ht();
    proof {
        lemma_wf_parts(t1);
        lemma_pend_start(t1, c0 as int);
    }
@at loop0.before
    proof { assert(c == ht_leaf_of(t1, c0 as int)) by { assert(t1.son[ht_leaf_of(t1, c0 as int)] >= t1.nn()); } }
@loop 0
    invariant_except_break
        0 <= c < 2 * n - 1,
        ht_pend(self.ht(), c as int),
        ht_bump(self.ht(), c as int) == ht_bump(t1, ht_leaf_of(t1, c0 as int)),
    invariant
        self.dims(), self.num_symb == n, n == old(self).num_symb,
        ha_links(self.ht(), self.parent@, self.symb_map@),
    ensures
        ht_wf(self.ht()), self.ht() == ht_bump(t1, ht_leaf_of(t1, c0 as int)),
    decreases 2 * n - 1 - c,
@at loop0.begin
    let ghost ta = self.ht();
    let ghost ca = c as int;
    let ghost la = ht_top(ta.freq, ca);
    proof {
        lemma_pend_top(ta, ca);
        lemma_pend_parts(ta, ca);
        lemma_ht_step(ta, ca);
        lemma_step_links(ta, ca, self.parent@, self.symb_map@);
        lemma_top(ta.freq, ca);
        assert(ta.son[ca] < ta.nn() + ta.n && ta.son[la] < ta.nn() + ta.n);
    }
    let ghost parent_a = self.parent@;
    let ghost symb_a = self.symb_map@;
@loop 1
    invariant
        self.dims(), self.num_symb == n, self.freq@ == ta.freq.update(ca, k), self.ht().n == ta.n, ta.n == n, k == ta.freq[ca] + 1, ht_dims(ta), ht_keys(ta),
        0 <= c < l <= ta.nn(), c == ca, k <= 0x8000,
        forall|q: int| c < q < l ==> #[trigger] ta.freq[q] <= ta.freq[ca],
    ensures l <= ta.nn(), forall|q: int| c < q < l ==> #[trigger] ta.freq[q] <= ta.freq[ca], k <= ta.freq[l as int],
    decreases ta.nn() - l,
@at loop1.after
    proof { lemma_top_is(ta.freq, ca, l - 1); }
@at before "c = self.parent"
    proof {
        let t2 = ht_step(ta, ca);
        assert(c == la);
        assert(self.freq@ =~= t2.freq);
        assert(self.son@ =~= t2.son);
        if la != ca {
            let a = put_links(ta, ta.son[ca], la, parent_a, symb_a);
            let b = put_links(ta, ta.son[la], ca, a.0, a.1);
            assert(self.parent@ =~= b.0);
            assert(self.symb_map@ =~= b.1);
        }
        assert(self.ht() == t2);
    }

@fn tools::adaptive_huff::AdaptiveHuffmanDecoder::create
@ret r
@contract
    requires 2 <= num_symbols <= 2304,
    ensures
        r.tree.inv(), r.tree.num_symb == num_symbols, r.tree.ht() == ht_init(num_symbols as int),
        r.bits@ == Seq::<bool>::empty(), r.ptr == 0,

@fn tools::adaptive_huff::AdaptiveHuffmanDecoder::drop_leading_bits
@contract
    requires old(self).ptr <= old(self).bits@.len(),
    ensures
        final(self).bits@ == old(self).bits@.skip(old(self).ptr as int),
        final(self).ptr == 0,
        final(self).tree == old(self).tree,
@loop 0
    invariant
        cpy@ == old(self).bits@,
        self.ptr == old(self).ptr, self.tree == old(self).tree,
        self.ptr <= i <= cpy@.len(),
        self.bits@ == cpy@.subrange(self.ptr as int, i as int),

@fn tools::adaptive_huff::AdaptiveHuffmanDecoder::get_bit
@ret r
@contract
    requires old(self).io_ok(old(reader)),
    ensures
        /*C14*/ no_fault(r, old(reader).failed(), final(reader).failed()),
        final(reader).end_failed() == old(reader).end_failed(),
        final(reader).data() == old(reader).data(),
        final(self).tree == old(self).tree,
        match r {
            Ok(b) => final(self).io_ok(final(reader)) && nb(old(self).rest(old(reader)), false) == Some((b as int, final(self).rest(final(reader)))),
            Err(e) => e.is_fault() || e.is_eof() && old(self).rest(old(reader)).len() == 0,
        },
    decreases (if old(self).ptr < old(self).bits@.len() { 0int } else { 1int }),
@at start
    proof {
        let d = reader.data();
        if self.ptr < self.bits@.len() { lemma_rem_get(true, d, reader.pos(), self.bits@, self.ptr as int); }
        if reader.pos() < d.len() {
            lemma_rem_feed(true, d, reader.pos(), self.bits@, self.ptr as int);
            lemma_rem_drop(true, d, reader.pos(), self.bits@, self.ptr as int);
            lemma_rem_feed(true, d, reader.pos(), self.bits@.skip(self.ptr as int), 0);
            assert(d.subrange(reader.pos(), reader.pos() + 1) =~= seq![d[reader.pos()]]);
        }
        if reader.pos() >= d.len() && self.ptr == self.bits@.len() { lemma_rem_end(true, d, reader.pos(), self.bits@); }
    }

@fn tools::adaptive_huff::AdaptiveHuffmanDecoder::get_byte
@ret r
@contract
    requires old(self).io_ok(old(bytes)),
    ensures
        /*C14*/ no_fault(r, old(bytes).failed(), final(bytes).failed()),
        final(bytes).end_failed() == old(bytes).end_failed(),
        final(bytes).data() == old(bytes).data(),
        final(self).tree == old(self).tree,
        match r {
            Ok(b) => final(self).io_ok(final(bytes)) && nbits(old(self).rest(old(bytes)), 8, false) == Some((b as int, final(self).rest(final(bytes)))),
            Err(e) => e.is_fault() || e.is_eof() && nbits(old(self).rest(old(bytes)), 8, false) is None,
        },
@at start
    let ghost r0 = self.rest(bytes);
@loop 0
    invariant
        /*C14*/ bytes.failed() == old(bytes).failed(),
        bytes.end_failed() == old(bytes).end_failed(),
        r0 == old(self).rest(old(bytes)),
        bytes.data() == old(bytes).data(), self.tree == old(self).tree,
        self.io_ok(bytes),
        nbits(r0, _i as nat, false) == Some((ans as int, self.rest(bytes))),
@at loop0.begin
    proof {
        lemma_nbits_bound(r0, _i as nat, false);
        lemma_nbits_none(r0, _i as nat + 1, 8, false);
        lemma_pow2_values(); lemma_pow2_mono(_i as nat, 7);
        let x: u8 = ans;
        assert(x < 128 ==> (x << 1) | 1 == 2 * x + 1 && (x << 1) | 0 == 2 * x) by(bit_vector);
    }

@fn tools::adaptive_huff::AdaptiveHuffmanDecoder::decode_char
@ret r
@contract
    requires old(self).io_ok(old(reader)), old(self).tree.inv(),
    ensures
        /*C14*/ no_fault(r, old(reader).failed(), final(reader).failed()),
        final(reader).end_failed() == old(reader).end_failed(),
        final(reader).data() == old(reader).data(),
        match r {
            Ok(c) => {
                &&& final(self).io_ok(final(reader))
                &&& final(self).tree.inv() && final(self).tree.num_symb == old(self).tree.num_symb
                &&& 0 <= c < old(self).tree.num_symb
                &&& huf_sym(old(self).tree.ht(), old(self).rest(old(reader)), false) == Some((c as int, final(self).rest(final(reader))))
                &&& final(self).tree.ht() == ht_update(old(self).tree.ht(), c as int)
            },
            Err(e) => e.is_fault() || e.is_eof() && huf_sym(old(self).tree.ht(), old(self).rest(old(reader)), false) is None,
        },
@at start
    let ghost t = self.tree.ht();
    proof { lemma_wf_parts(t); lemma_walk_start(t); lemma_son_range(t, t.son[t.root()] as int); }
    let ghost w0 = huf_sym(t, self.rest(reader), false);
@loop 0
    invariant
        /*C14*/ reader.failed() == old(reader).failed(),
        reader.end_failed() == old(reader).end_failed(),
        t == self.tree.ht(), self.tree == old(self).tree, self.tree.inv(), ht_dims(t), ht_sons(t),
        reader.data() == old(reader).data(), self.io_ok(reader),
        is_son(t, c as int), c < t.nn() + t.n,
        w0 == huf_sym(t, old(self).rest(old(reader)), false),
        w0 == huf_walk(t, c as int, self.rest(reader), false),
    decreases (if c < t.nn() { c + 1 } else { 0 }),
@at loop0.begin
    proof { lemma_walk_step(t, c as int, self.rest(reader), false); }
    let ghost c1 = c;
@at loop0.end
    proof { lemma_son_range(t, c as int); }

@fn tools::adaptive_huff::AdaptiveHuffmanDecoder::decode_position
@ret r
@contract
    requires old(self).io_ok(old(reader)),
    ensures
        /*C14*/ no_fault(r, old(reader).failed(), final(reader).failed()),
        final(reader).end_failed() == old(reader).end_failed(),
        final(reader).data() == old(reader).data(),
        final(self).tree == old(self).tree,
        match r {
            Ok(p) => final(self).io_ok(final(reader)) && p < 4096 && huf_pos(old(self).rest(old(reader)), false) == Some((p as int, final(self).rest(final(reader)))),
            Err(e) => e.is_fault() || e.is_eof() && huf_pos(old(self).rest(old(reader)), false) is None,
        },
@loop 0
    invariant
        /*C14*/ reader.failed() == old(reader).failed(),
        reader.end_failed() == old(reader).end_failed(),
        0 <= i8 < 256, coded_bits == pos_len(i8), 3 <= coded_bits <= 8,
        nbits(old(self).rest(old(reader)), 8, false) == Some((i8, r1)),
        reader.data() == old(reader).data(), self.tree == old(self).tree,
        self.io_ok(reader),
        nbits(r1, _i as nat, false) matches Some((x, rr)) && rr == self.rest(reader) && first8 == i8 * pow2(_i as nat) + x,
@at before "let upper6"
    let ghost i8 = first8 as int;
    let ghost r1 = self.rest(reader);
    proof { lemma_nbits_bound(old(self).rest(old(reader)), 8, false); lemma_pow2_values(); lemma_d_tables(i8); lemma_pos_tables(i8); }
@at loop0.before
    proof { assert(pow2(0) == 1); }
@at loop0.begin
    proof {
        lemma_nbits_bound(r1, _i as nat, false);
        lemma_nbits_none(r1, _i as nat + 1, (pos_len(i8) - 2) as nat, false);
        lemma_pow2_values(); lemma_pow2_mono(_i as nat, 5);
        let m = pow2(_i as nat);
        assert(i8 * m + m <= 8192) by(nonlinear_arith) requires 0 <= i8 <= 255, 1 <= m <= 32 { }
        assert(pow2((_i + 1) as nat) == 2 * m);
        assert(i8 * (2 * m) == 2 * (i8 * m)) by(nonlinear_arith);
        let x: u16 = first8;
        assert(x < 8192 ==> x << 1 == 2 * x) by(bit_vector);
    }
@at loop0.after
    proof {
        let a = D_CODE[i8] as u16;
        let b = first8;
        assert(a < 64 ==> (a << 6) | (b & 0x3f) == 64 * a + b % 64) by(bit_vector);
        assert(a < 64 ==> a << 6 == 64 * a) by(bit_vector);
    }

@fn tools::adaptive_huff::AdaptiveHuffmanCoder::create
@ret r
@contract
    requires 2 <= num_symbols <= 2304,
    ensures r.tree.inv(), r.tree.num_symb == num_symbols, r.tree.ht() == ht_init(num_symbols as int), r.bits@ == Seq::<bool>::empty(), r.ptr == 0,

@fn tools::adaptive_huff::AdaptiveHuffmanCoder::drop_leading_bits
@contract
    requires old(self).ptr <= old(self).bits@.len(),
    ensures
        final(self).bits@ == old(self).bits@.skip(old(self).ptr as int),
        final(self).ptr == 0,
        final(self).tree == old(self).tree,
@loop 0
    invariant
        cpy@ == old(self).bits@,
        self.ptr == old(self).ptr, self.tree == old(self).tree,
        self.ptr <= i <= cpy@.len(),
        self.bits@ == cpy@.subrange(self.ptr as int, i as int),

@fn tools::adaptive_huff::AdaptiveHuffmanCoder::put_code
@ret r
@contract
    requires
        num_bits <= 32,
        old(self).bits@.len() < 8, old(self).ptr == 0, old(writer).pos() >= 0,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        final(self).tree == old(self).tree,
        match r {
            Ok(_) => {
                &&& codes_put(old(writer).data(), old(writer).pos(), old(self).bits@, top_bits(code, num_bits as int),
                        final(writer).data(), final(writer).pos(), final(self).bits@)
                &&& final(self).bits@.len() < 8 && final(self).ptr == 0
                &&& old(writer).pos() <= final(writer).pos() <= MAX_LEN
            },
            Err(e) => e.is_fault(),
        },
@at start
    let ghost code0 = code;
    let ghost bits0 = self.bits@;
    proof { assert(code0 << 0 == code0) by(bit_vector); assert(bits0 + top_bits(code0, 0) =~= bits0); }
@loop 0
    invariant
        num_bits <= 32, self.tree == old(self).tree,
        _i < 32 ==> code == code0 << (_i as u32),
        self.ptr == _i,
        self.bits@ == bits0 + top_bits(code0, _i as int),
@at loop0.begin
    proof {
        lemma_top_shift(code0, _i as int);
        let k = _i as int;
        assert(top_bits(code0, k + 1) =~= top_bits(code0, k).push(top_bit(code0, k)));
        assert(bits0 + top_bits(code0, k + 1) =~= (bits0 + top_bits(code0, k)).push(top_bit(code0, k)));
    }
@at before "writer.write("
    let ghost tot = bits0 + top_bits(code0, num_bits as int);
    proof {
        assert(bytes@ == pack(true, tot));
        assert(bytes@.len() == (tot.len() + 7) / 8);
        assert(bytes@.take(bytes@.len() as int) =~= bytes@);
        lemma_codes_put(writer.data(), writer.pos(), bits0, top_bits(code0, num_bits as int));
        if tot.len() % 8 == 0 { assert(tot.skip(8 * (tot.len() as int / 8)) =~= Seq::<bool>::empty()); }
    }
@at end
    proof { assert(self.bits@ =~= tot.skip(8 * (tot.len() as int / 8))); }

@fn tools::adaptive_huff::AdaptiveHuffmanCoder::finish
@ret r
@contract
    requires 0 <= old(writer).pos() <= MAX_LEN,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        *final(self) == *old(self),
        match r {
            Ok(_) => final(writer).pos() == old(writer).pos() + (if old(self).bits@.len() > 0 { 1int } else { 0 }) && final(writer).data() == old(writer).data(),
            Err(e) => e.is_fault(),
        },

@fn tools::adaptive_huff::AdaptiveHuffmanCoder::encode_char
@ret r
@contract
    requires
        old(self).tree.inv(), c < old(self).tree.num_symb,
        old(self).bits@.len() < 8, old(self).ptr == 0, old(writer).pos() >= 0,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        match r {
            Ok(_) => {
                &&& codes_put(old(writer).data(), old(writer).pos(), old(self).bits@, huf_code(old(self).tree.ht(), ht_leaf_of(old(self).tree.ht(), c as int)),
                        final(writer).data(), final(writer).pos(), final(self).bits@)
                &&& final(self).tree.inv() && final(self).tree.num_symb == old(self).tree.num_symb && final(self).tree.ht() == ht_update(old(self).tree.ht(), c as int)
                &&& final(self).bits@.len() < 8 && final(self).ptr == 0
                &&& old(writer).pos() <= final(writer).pos() <= MAX_LEN
            },
            Err(e) => e.is_fault(),
        },
@at start
    let ghost t = self.tree.ht();
    let ghost leaf = ht_leaf_of(t, c as int);
    let ghost mut d = 0int;
    proof {
        lemma_wf_parts(t);
        assert(is_leaf_of(t, leaf, c as int));
        lemma_code_sym(t, c as int, Seq::empty(), false);
        assert(t.son[leaf] >= t.nn());
        lemma_fib_first(t, leaf);
        assert(top_bits(0, 0) =~= Seq::<bool>::empty());
        assert(huf_code(t, leaf) + top_bits(0, 0) =~= huf_code(t, leaf));
    }
@loop 0
    invariant_except_break
        0 <= curr_node < t.root(),
        t.freq[curr_node as int] >= fib((d + 2) as nat), t.freq[ht_par(t, curr_node as int)] >= fib((d + 3) as nat),
        huf_code(t, leaf) == huf_code(t, curr_node as int) + top_bits(code, num_bits as int),
    invariant
        t == self.tree.ht(), self.tree.inv(), self.tree == old(self).tree, t.n == self.tree.num_symb, leaf == ht_leaf_of(t, c as int),
        self.bits@ == old(self).bits@, self.ptr == old(self).ptr,
        *writer == *old(writer),
        ht_dims(t), ht_sons(t), ht_links(t), ht_keys(t), ht_sums(t, -1),
        d == num_bits, 0 <= d <= 21,
    ensures
        huf_code(t, leaf) == top_bits(code, num_bits as int),
    decreases t.root() - curr_node,
@at loop0.begin
    let ghost k0 = curr_node as int;
    proof {
        lemma_fib_bound(t, k0, d);
        lemma_par_above(t, k0);
        let p = ht_par(t, k0);
        assert(t.son[p] < t.nn());
        lemma_fib_bound(t, p, d + 1);
        let b: u32 = (k0 % 2) as u32;
        let x = k0 as usize;
        assert((x as u32) & 1 == x % 2) by(bit_vector);
        assert(x & 1 == x % 2) by(bit_vector);
        assert(1u32 << 31 == 0x8000_0000u32 && 0u32 << 31 == 0) by(bit_vector);
        lemma_top_front(code, num_bits as int, b);
        assert(huf_code(t, k0) == huf_code(t, p).push(k0 % 2 == 1));
        assert(huf_code(t, p).push(k0 % 2 == 1) + top_bits(code, num_bits as int) =~= huf_code(t, p) + (seq![k0 % 2 == 1] + top_bits(code, num_bits as int)));
        if p < t.root() { lemma_fib_step(t, k0, p, d); }
        if p == t.root() { assert forall|s: Seq<bool>| huf_code(t, p) + s == s by { assert(huf_code(t, p) + s =~= s); } }
        d = d + 1;
    }

@fn tools::adaptive_huff::AdaptiveHuffmanCoder::encode_position
@ret r
@contract
    requires
        c < 4096,
        old(self).bits@.len() < 8, old(self).ptr == 0, old(writer).pos() >= 0,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        final(self).tree == old(self).tree,
        match r {
            Ok(_) => {
                &&& codes_put(old(writer).data(), old(writer).pos(), old(self).bits@, pos_bits(c as int),
                        final(writer).data(), final(writer).pos(), final(self).bits@)
                &&& final(self).bits@.len() < 8 && final(self).ptr == 0
                &&& old(writer).pos() <= final(writer).pos() <= MAX_LEN
            },
            Err(e) => e.is_fault(),
        },
@at start
    proof {
        assert(c < 4096 ==> c >> 6 == c / 64 && c & 0x3f == c % 64 && c / 64 < 64) by(bit_vector);
        lemma_p_tables(c as int / 64);
        assert forall|d: Seq<u8>, p: int, b: Seq<bool>, d1: Seq<u8>, p1: int, b1: Seq<bool>, d2: Seq<u8>, p2: int, b2: Seq<bool>|
            codes_put(d, p, b, top_bits(((p_code(c as int / 64) as u32) << 24) as u32, p_len(c as int / 64)), d1, p1, b1)
            && #[trigger] codes_put(d1, p1, b1, top_bits(((c as int % 64) as u32) << 26, 6), d2, p2, b2)
            implies #[trigger] codes_put(d, p, b, pos_bits(c as int), d2, p2, b2) by {
            lemma_codes_two(d, p, b, top_bits(((p_code(c as int / 64) as u32) << 24) as u32, p_len(c as int / 64)), d1, p1, b1,
                top_bits(((c as int % 64) as u32) << 26, 6), d2, p2, b2);
        }
    }

@module tools::adaptive_huff
proof fn lemma_p_tables(i: int)
    requires 0 <= i < 64
    ensures P_LEN[i] == p_len(i), P_CODE[i] == p_code(i), 1 <= P_LEN[i] <= 8
{
}
@end
