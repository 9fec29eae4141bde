## the adaptive Huffman tree of direct_ports/lzhuf.rs
@module direct_ports::lzhuf
impl AdaptiveHuffman {
    pub open spec fn ht(&self) -> HT { HT { n: N_CHAR as int, freq: self.freq@, son: self.son@ } }
    pub open spec fn par(&self) -> Seq<usize> { self.prnt@.take(TAB_SIZE as int) }
    pub open spec fn symb(&self) -> Seq<usize> { self.prnt@.skip(TAB_SIZE as int) }
    pub open spec fn dims(&self) -> bool {
        &&& self.freq@.len() == TAB_SIZE + 1
        &&& self.son@.len() == TAB_SIZE
        &&& self.prnt@.len() == TAB_SIZE + N_CHAR
    }
    pub open spec fn inv(&self) -> bool {
        self.dims() && ht_wf(self.ht()) && ha_links(self.ht(), self.par(), self.symb())
    }
    pub open spec fn same_io(&self, o: &Self) -> bool { self.bits@ == o.bits@ && self.ptr == o.ptr && self.count == o.count }
}
@fn direct_ports::lzhuf::AdaptiveHuffman::start_huff
@contract
    requires old(self).dims(),
    ensures
        final(self).inv(),
        final(self).same_io(old(self)),
        final(self).ht() == ht_init(N_CHAR as int),
@loop 0
    invariant
        self.dims(), self.same_io(old(self)),
        forall|k: int| 0 <= k < i ==> #[trigger] self.freq@[k] == 1,
        forall|k: int| 0 <= k < i ==> #[trigger] self.son@[k] == TAB_SIZE + k,
        forall|k: int| TAB_SIZE <= k < TAB_SIZE + i ==> #[trigger] self.prnt@[k] == k - TAB_SIZE,
@at loop1.before
    let ghost n = N_CHAR as int;
    proof {
        lemma_init_ready(n);
        assert(self.freq@.take(n) =~= Seq::new(n as nat, |i: int| 1usize));
        assert(self.son@.take(n) =~= Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize));
    }
@loop 1
    invariant
        n == N_CHAR, self.dims(), self.same_io(old(self)),
        n <= j <= 2 * n - 1, i == 2 * (j - n),
        hb_wf(n, j as int, n, self.freq@.take(j as int), self.son@.take(j as int)),
        ht_join(n, j as int, self.freq@.take(j as int), self.son@.take(j as int))
            == ht_join(n, n, Seq::new(n as nat, |i: int| 1usize), Seq::new(n as nat, |i: int| (2 * n - 1 + i) as usize)),
        forall|k: int| 0 <= k < n ==> #[trigger] self.freq@[k] == 1,
        forall|k: int| 0 <= k < n ==> #[trigger] self.son@[k] == TAB_SIZE + k,
        forall|k: int| TAB_SIZE <= k < TAB_SIZE + n ==> #[trigger] self.prnt@[k] == k - TAB_SIZE,
        forall|k: int| n <= k < j ==> #[trigger] self.son@[k] == 2 * (k - n),
        forall|k: int| n <= k < j ==> self.freq@[k] == self.freq@[#[trigger] create_son(n, k)] + self.freq@[create_son(n, k) + 1],
        forall|k: int| 0 <= k < i ==> #[trigger] self.prnt@[k] == n + k / 2,
    decreases 2 * n - 1 - j,
@at loop1.begin
    let ghost fr = self.freq@.take(j as int);
    let ghost so = self.son@.take(j as int);
    let ghost fall = self.freq@;
    proof {
        let f = fr[i as int] + fr[i + 1];
        lemma_join(n, j as int, n, fr, so);
        assert(fr[j - 1] <= f) by {
            if j > n {
                let e = create_son(n, j - 1);
                assert(e + 2 == i);
                assert(fr[j - 1] == fr[e] + fr[e + 1]);
            }
            lemma_hb_sorted(n, j as int, n, fr, so);
        }
        lemma_ins_pos_is(fr, f, j as int, j as int);
    }
@at loop1.end
    proof {
        let f = fr[i - 2] + fr[i - 1];
        assert(self.freq@.take(j as int) =~= fr.insert(j - 1, f as usize));
        assert(self.son@.take(j as int) =~= so.insert(j - 1, (i - 2) as usize));
        assert forall|k: int| n <= k < j implies self.freq@[k] == self.freq@[#[trigger] create_son(n, k)] + self.freq@[create_son(n, k) + 1] by {
            if k < j - 1 { assert(fall[k] == fall[create_son(n, k)] + fall[create_son(n, k) + 1]); }
        }
    }
@at loop1.after
    let ghost fr = self.freq@.take(2 * n - 1);
    proof {
        assert(self.son@.take(2 * n - 1) =~= self.son@);
        lemma_built(n, n, fr, self.son@);
    }
@at end
    proof {
        assert(self.freq@ =~= fr.push(0xffff));
        assert(self.ht() == ht_init(n));
        assert(ha_links(self.ht(), self.par(), self.symb())) by {
            let t = self.ht();
            assert forall|p: int| 0 <= p < t.nn() && #[trigger] t.son[p] < t.nn() implies self.par()[t.son[p] as int] == p && self.par()[t.son[p] + 1] == p by {
                assert(p >= n);
            }
            assert forall|p: int| 0 <= p < t.nn() && #[trigger] t.son[p] >= t.nn() implies self.symb()[t.son[p] - t.nn()] == p by {
                assert(p < n);
            }
        }
    }
@end

@fn direct_ports::lzhuf::AdaptiveHuffman::rebuild_huff
@contract
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self).same_io(old(self)),
        final(self).ht() == ht_rebuild(old(self).ht()),
@at start
    let ghost t0 = self.ht();
    let ghost n = N_CHAR as int;
    proof {
        lemma_wf_parts(t0);
        lemma_rebuild_ready(t0);
        lemma_rebuild_wf(t0);
    }
@loop 0
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)), t0.n == n, ht_dims(t0), ht_sons(t0), ht_keys(t0),
        j <= i, j == lf_freq(t0, i as int).len(),
        self.freq@.take(j as int) == lf_freq(t0, i as int),
        self.son@.take(j as int) == lf_son(t0, i as int),
        forall|q: int| i <= q < 2 * n ==> #[trigger] self.freq@[q] == t0.freq[q],
        forall|q: int| i <= q < 2 * n - 1 ==> #[trigger] self.son@[q] == t0.son[q],
        self.par() == old(self).par(), self.symb() == old(self).symb(),
@at loop0.begin
    proof { assert(t0.freq[i as int] <= t0.freq[t0.nn()]); assert(self.freq@[i as int] == t0.freq[i as int]); }
    let ghost fr0 = self.freq@;
    let ghost so0 = self.son@;
    let ghost j0 = j as int;
@at loop0.end
    proof {
        if t0.leaf(i as int) {
            assert(self.freq@.take(j as int) =~= fr0.take(j0).push(((t0.freq[i as int] + 1) / 2) as usize));
            assert(self.son@.take(j as int) =~= so0.take(j0).push(t0.son[i as int]));
        }
    }
@at loop1.before
    let ghost tot = choose|tot: int| 1 <= tot <= 0x7fff && #[trigger] hb_wf(n, n, tot, lf_freq(t0, t0.nn()), lf_son(t0, t0.nn()));
@loop 1
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)), t0.n == n,
        n <= j <= 2 * n - 1, i == 2 * (j - n), 1 <= tot <= 0x7fff,
        hb_wf(n, j as int, tot, self.freq@.take(j as int), self.son@.take(j as int)),
        ht_join(n, j as int, self.freq@.take(j as int), self.son@.take(j as int))
            == ht_join(n, n, lf_freq(t0, t0.nn()), lf_son(t0, t0.nn())),
        self.freq@[2 * n - 1] == 0xffff,
        self.par() == old(self).par(), self.symb() == old(self).symb(),
    decreases 2 * n - 1 - j,
@at loop1.begin
    let ghost fr = self.freq@.take(j as int);
    let ghost so = self.son@.take(j as int);
    let ghost f0 = fr[i as int] + fr[i + 1];
    let ghost k0 = ins_pos(fr, f0, j as int);
    proof {
        lemma_join_pos(n, j as int, tot, fr, so);
        lemma_join(n, j as int, tot, fr, so);
        lemma_hb_sorted(n, j as int, tot, fr, so);
    }
@loop 2
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)), n <= j < 2 * n - 1, i == 2 * (j - n), i + 1 <= k < j, f == f0, f0 >= fr[i + 1],
        fr.len() == j, forall|q: int| 0 <= q < j ==> #[trigger] self.freq@[q] == fr[q],
        forall|q: int| k < q < j ==> f0 < #[trigger] fr[q],
    ensures k + 1 <= j, i + 1 <= k, f0 >= fr[k as int],
    decreases k,
@at loop2.after
    proof { lemma_ins_pos_is(fr, f0, j as int, k + 1); }
@at loop3.before
    let ghost fa = self.freq@;
@loop 3
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)), n <= j < 2 * n - 1, i == 2 * (j - n), i + 2 <= k <= j, l == (j - k) * 2,
        vx_lo_kp == k, k <= vx_at_kp <= k + l, fa.len() == self.freq@.len(),
        forall|q: int| 0 <= q <= vx_at_kp ==> #[trigger] self.freq@[q] == fa[q],
        forall|q: int| vx_at_kp < q <= k + l ==> #[trigger] self.freq@[q] == fa[q - 1],
        forall|q: int| k + l < q < 2 * n ==> #[trigger] self.freq@[q] == fa[q],
        self.son@ == so_a, self.par() == old(self).par(), self.symb() == old(self).symb(),
    decreases vx_at_kp,
@at before "for kp in"
    let ghost so_a = self.son@;
@at before "for kp in" #1
    let ghost fb = self.freq@;
@loop 4
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)), n <= j < 2 * n - 1, i == 2 * (j - n), i + 2 <= k <= j, l == (j - k) * 2,
        vx_lo_kp == k, k <= vx_at_kp <= k + l, so_a.len() == self.son@.len(),
        forall|q: int| 0 <= q <= vx_at_kp && q < 2 * n - 1 ==> #[trigger] self.son@[q] == so_a[q],
        forall|q: int| vx_at_kp < q <= k + l ==> #[trigger] self.son@[q] == so_a[q - 1],
        forall|q: int| k + l < q < 2 * n - 1 ==> #[trigger] self.son@[q] == so_a[q],
        self.freq@ == fb, self.par() == old(self).par(), self.symb() == old(self).symb(),
    decreases vx_at_kp,
@at loop1.end
    proof {
        assert(self.freq@.take(j as int) =~= fr.insert(k0, f0 as usize));
        assert(self.son@.take(j as int) =~= so.insert(k0, (i - 2) as usize));
    }
@at loop1.after
    proof {
        let fr = self.freq@.take(2 * n - 1);
        assert(self.son@.take(2 * n - 1) =~= self.son@);
        assert(self.freq@ =~= fr.push(0xffff));
        lemma_built(n, tot, fr, self.son@);
        assert(self.ht() == ht_rebuild(t0));
        lemma_wf_parts(self.ht());
    }
    let ghost t1 = self.ht();
@loop 5
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)), self.ht() == t1, ht_dims(t1), ht_sons(t1), t1.n == n,
        forall|p: int| 0 <= p < i && #[trigger] t1.son[p] < t1.nn() ==> self.par()[t1.son[p] as int] == p && self.par()[t1.son[p] + 1] == p,
        forall|p: int| 0 <= p < i && #[trigger] t1.son[p] >= t1.nn() ==> self.symb()[t1.son[p] - t1.nn()] == p,
        self.par()[t1.root()] == 0,
@at loop5.begin
    proof { assert(t1.son[i as int] < t1.nn() + t1.n); assert(forall|p: int| 0 <= p < i ==> t1.son[p] != t1.son[i as int]); }

@fn direct_ports::lzhuf::AdaptiveHuffman::update
@contract
    requires old(self).inv(), 0 <= c0 < N_CHAR,
    ensures
        final(self).inv(),
        final(self).same_io(old(self)),
        final(self).ht() == ht_update(old(self).ht(), c0 as int),
@at start
    let ghost told = self.ht();
    let ghost n = N_CHAR as int;
    proof {
        lemma_wf_parts(told);
        lemma_rebuild_wf(told);
    }
@at before "let mut c ="
    let ghost t1 = self.ht();
    proof {
        lemma_wf_parts(t1);
        lemma_pend_start(t1, c0 as int);
        assert(port_links(t1, self.prnt@)) by { reveal(port_links); }
        assert(self.prnt@[TAB_SIZE + c0] == self.symb()[c0 as int]);
        assert(t1.son[ht_leaf_of(t1, c0 as int)] >= t1.nn());
    }
@loop 0
    invariant_except_break
        0 <= c < 2 * n - 1,
        ht_pend(self.ht(), c as int),
        ht_bump(self.ht(), c as int) == ht_bump(t1, ht_leaf_of(t1, c0 as int)),
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)),
        port_links(self.ht(), self.prnt@),
    ensures
        ht_wf(self.ht()), self.ht() == ht_bump(t1, ht_leaf_of(t1, c0 as int)),
    decreases 2 * n - 1 - c,
@at loop0.begin
    let ghost ta = self.ht();
    let ghost ca = c as int;
    let ghost la = ht_top(ta.freq, ca);
    let ghost prnt_a = self.prnt@;
    proof { lemma_port_step(ta, ca, prnt_a); }
@loop 1
    invariant
        self.dims(), n == N_CHAR, self.same_io(old(self)), self.freq@ == ta.freq.update(ca, k), self.ht().n == ta.n, ta.n == n, k == ta.freq[ca] + 1, ht_pend(ta, ca),
        0 <= c < l <= ta.nn(), c == ca, k <= 0x8000,
        forall|q: int| c < q < l ==> #[trigger] ta.freq[q] <= ta.freq[ca],
    ensures l <= ta.nn(), forall|q: int| c < q < l ==> #[trigger] ta.freq[q] <= ta.freq[ca], k <= ta.freq[l as int],
    decreases ta.nn() - l,
@at loop1.begin
    proof { lemma_pend_parts(ta, ca); }
@at before "while k"
    proof { lemma_pend_parts(ta, ca); }
@at loop1.after
    proof { assert(l == la + 1) by { lemma_pend_parts(ta, ca); lemma_top_is(ta.freq, ca, l - 1); } }
@at before "c = self.prnt"
    proof {
        let t2 = ht_step(ta, ca);
        assert(c == la);
        assert(self.freq@ =~= t2.freq);
        assert(self.son@ =~= t2.son);
        if la != ca {
            let p1 = put_prnt(n, prnt_a, ta.son[ca], la);
            assert(self.prnt@ =~= put_prnt(n, p1, ta.son[la], ca));
        }
        assert(self.prnt@ == port_step(ta, ca, prnt_a));
        assert(self.ht() == t2);
    }
@at end
    proof { assert(ha_links(self.ht(), self.par(), self.symb())) by { reveal(port_links); } }
@end
