## direct_ports/lzhuf.rs: dictionary index and encoder
@module direct_ports::lzhuf
impl LZSS {
    pub open spec fn px(&self) -> PX { PX { d: self.dad@, l: self.lson@, r: self.rson@ } }
    pub open spec fn tv(&self) -> TV { px_tv(self.px()) }
    pub open spec fn ring(&self) -> Seq<u8> { self.dictionary@.take(4096) }
    pub open spec fn dims(&self) -> bool { self.dictionary@.len() == 4155 && px_len(self.px()) }
    /// the state of the search at position pos, with len bytes ahead and done bytes behind
    pub open spec fn es(&self, pos: int, len: int, done: int) -> ES {
        ES { tv: self.tv(), b: self.dictionary@, pos, ml: self.match_length as int, mo: self.match_position as int, len, done }
    }
    /// the same with the window that is taken modulo its length
    pub open spec fn es_ring(&self, pos: int, len: int, done: int) -> ES { ES { b: self.ring(), ..self.es(pos, len, done) } }
    pub open spec fn inv(&self) -> bool { self.dims() && tv_inv(self.tv(), self.ring()) }
}
@fn direct_ports::lzhuf::LZSS::init_tree
@contract
    requires old(self).dims(),
    ensures
        final(self).dims(), final(self).dictionary == old(self).dictionary,
        /*FN*/ final(self).match_length == old(self).match_length && final(self).match_position == old(self).match_position,
        final(self).tv().nodes == Seq::new(4096, |i: int| gn_empty()), final(self).tv().roots == Seq::new(256, |i: int| None::<usize>),
@loop 0
    invariant
        self.dims(), self.dictionary == old(self).dictionary,
        /*FN*/ self.match_length == old(self).match_length && self.match_position == old(self).match_position,
        forall|k: int| 4097 <= k < i ==> #[trigger] self.rson@[k] == 4096,
@loop 1
    invariant
        self.dims(), self.dictionary == old(self).dictionary,
        /*FN*/ self.match_length == old(self).match_length && self.match_position == old(self).match_position,
        forall|k: int| 4097 <= k < 4353 ==> #[trigger] self.rson@[k] == 4096,
        forall|k: int| 0 <= k < i ==> #[trigger] self.dad@[k] == 4096,
@at end
    proof {
        assert(self.tv().nodes =~= Seq::new(4096, |i: int| gn_empty()));
        assert(self.tv().roots =~= Seq::new(256, |i: int| None::<usize>));
    }
@fn direct_ports::lzhuf::LZSS::insert_node
@contract
    requires old(self).inv(), r < 4096, !gn_reg(old(self).tv().nodes[r as int]),
    ensures
        final(self).dims(), final(self).dictionary == old(self).dictionary,
        ins_post(old(self).tv(), old(self).ring(), r as int, final(self).tv()),
        final(self).match_length <= 60, final(self).match_length == 0 || 2 < final(self).match_length,
        px_found(old(self).tv(), old(self).dictionary@, r as int, final(self).match_length as int, final(self).match_position as int),
        /*FN*/ ins_fn(old(self).tv(), old(self).dictionary@, r as int, 60, 2, old(self).match_position as int) == (IR { tv: final(self).tv(), ml: final(self).match_length as int, mo: final(self).match_position as int }),
@at start
    hide(px_change); hide(px_leaf); hide(px_tv); hide(ins_walk); hide(tv_spawn); hide(tv_spawn_root); hide(tv_change); hide(tv_rk); hide(tv_col); hide(tv_full); hide(ins_next); hide(best_of);
    let ghost t0 = self.tv();
    let ghost dict = self.dictionary@;
    let ghost b = self.ring();
    let ghost s1 = px_clear(self.px(), r as int);
    let ghost rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    let ghost mo0 = self.match_position as int;
    let ghost res = ins_fn(t0, dict, r as int, 60, 2, mo0);
    proof {
        reveal(ins_fn);
        lemma_px_tree(s1, dict[r as int] as int);
        assert(dict[r as int] == b[r as int]);
        reveal(px_tv);
        assert(t0.nodes[r as int] == px_node(self.px(), r as int));
        lemma_px_clear(self.px(), r as int);
        lemma_px_none(t0, dict, r as int, self.match_position as int);
        assert forall|y: i32| #![trigger (y & 4095)] -4096 <= y < 4096 implies (y & 4095) == (if y < 0 { y + 4096 } else { y as int }) by {
            assert(-4096 <= y < 0 ==> (y & 4095) == y + 4096) by(bit_vector);
            assert(0 <= y < 4096 ==> (y & 4095) == y) by(bit_vector);
        }
    }
@loop 0
    invariant_except_break
        self.match_length < 60,
        /*FN*/ p > 4096 ==> self.match_length == 0 && self.match_position == mo0,
        /*FN*/ p < 4096 ==> res == ins_next(t0, dict, r as int, 60, 2, self.match_length as int, self.match_position as int, p as int) && (cmp < 0 <==> run_side(dict, r as int, p as int, 60) == 0),
    invariant
        res == ins_fn(t0, dict, r as int, 60, 2, mo0), mo0 == old(self).match_position,
        res == (match px_opt(s1.r[4097 + b[r as int]]) {
            Some(c) => ins_walk(t0, dict, r as int, 60, 2, 0, mo0, c as int),
            None => IR { tv: tv_spawn_root(t0, b[r as int] as int, r as int), ml: 0, mo: mo0 },
        }),
        t0.nodes.len() == 4096, b[r as int] == dict[r as int],
        r < 4096, dict.len() == 4155, b == dict.take(4096), self.dictionary == old(self).dictionary, dict == self.dictionary@, key@ == dict.subrange(r as int, 4155),
        self.px() == s1, px_len(s1), px_tv(s1) == t0, tv_rk(t0, rk), tv_inv(t0, b), s1.d[r as int] == 4096, s1.l[r as int] == 4096, s1.r[r as int] == 4096,
        p > 4096 ==> p == 4097 + b[r as int] && cmp >= 0,
        p <= 4096 ==> p < 4096 && s1.d[p as int] != 4096 && b[p as int] == b[r as int],
        self.match_length == 0 || 2 < self.match_length,
        px_found(t0, dict, r as int, self.match_length as int, self.match_position as int),
        t0 == old(self).tv(), b == old(self).ring(),
        forall|y: i32| #![trigger (y & 4095)] -4096 <= y < 4096 ==> (y & 4095) == (if y < 0 { y + 4096 } else { y as int }),
    ensures
        /*FN*/ res == (IR { tv: tv_change(t0, p as int, r as int), ml: self.match_length as int, mo: self.match_position as int }),
        p < 4096, s1.d[p as int] != 4096, b[p as int] == b[r as int], self.match_length <= 60, 2 < self.match_length,
        px_found(t0, dict, r as int, self.match_length as int, self.match_position as int),
    decreases (if p > 4096 { 1int } else { 0int }), (if p < 4096 { rk[p as int] } else { 0 }),
@at loop0.begin
    let ghost p0 = p as int;
    let ghost (ml0, mo1) = (self.match_length as int, self.match_position as int);
    proof {
        if p < 4096 { lemma_px_node(s1, rk, p as int); lemma_px_links(s1, p as int); }
        else { if s1.r[p as int] != 4096 { lemma_px_root(s1, rk, p - 4097); } }
        lemma_px_step(s1, rk, b, p as int);
    }
@at before "return" #0
    proof { reveal(ins_next); lemma_px_leaf(s1, b, p as int, true, r as int); reveal(px_leaf); assert(self.px() == px_leaf(s1, p as int, true, r as int)); assert(res == (IR { tv: self.tv(), ml: self.match_length as int, mo: self.match_position as int })); /*FN*/ }
@at before "return" #1
    proof { reveal(ins_next); lemma_px_leaf(s1, b, p as int, false, r as int); reveal(px_leaf); assert(self.px() == px_leaf(s1, p as int, false, r as int)); assert(res == (IR { tv: self.tv(), ml: self.match_length as int, mo: self.match_position as int })); /*FN*/ }
@at loop1.before
    proof {
        assert(px_same(dict, r as int, p as int, 0));
        assert(tv_ok(t0));
        assert(res == ins_walk(t0, dict, r as int, 60, 2, ml0, mo1, p as int)) by { reveal(ins_next); reveal(tv_ok); } /*FN*/
    }
@loop 1
    invariant_except_break
        /*FN*/ i > 1 ==> cmp == 0,
    invariant
        r < 4096, p < 4096, dict.len() == 4155, dict == self.dictionary@, key@ == dict.subrange(r as int, 4155),
        1 <= i <= 60, px_run(dict, r as int, p as int, i as int),
        /*FN*/ run_to(dict, r as int, p as int, 60, i as int) == run_to(dict, r as int, p as int, 60, 1),
    ensures
        /*FN*/ i == run_to(dict, r as int, p as int, 60, 1),
        /*FN*/ cmp < 0 <==> run_side(dict, r as int, p as int, 60) == 0,
    decreases 60 - i,
@at before "if cmp != 0"
    proof { lemma_px_long(dict, r as int, p as int, i as int); if cmp == 0 { assert(px_same(dict, r as int, p as int, i as int)); } }
@at before "if i > THRESHOLD"
    let ghost m = best_of(4096, dict, r as int, 60, 2, ml0, mo1, p as int);
    proof {
        let d = ring_back(r as int, 4096, p as int) - 1;
        lemma_ring_back(r as int, 4096, p as int);
        assert(m == if i > 2 && i > ml0 { (i as int, d) } else if i > 2 && i == ml0 && d < mo1 { (ml0, d) } else { (ml0, mo1) }) by { reveal(best_of); } /*FN*/
        lemma_ins_walk(t0, dict, r as int, 60, 2, ml0, mo1, p as int);
        assert(res == if m.0 > ml0 && m.0 >= 60 { IR { tv: tv_change(t0, p as int, r as int), ml: m.0, mo: m.1 } } else { ins_next(t0, dict, r as int, 60, 2, m.0, m.1, p as int) }); /*FN*/
        assert(gn_reg(t0.nodes[p as int])) by { reveal(px_tv); assert(t0.nodes[p as int] == px_node(s1, p as int)); }
        lemma_px_take(t0, dict, r as int, i as int, ring_back(r as int, 4096, p as int) - 1, p as int);
    }
@at loop0.after
    proof { lemma_px_node(s1, rk, p as int); lemma_px_change(s1, b, p as int, r as int); reveal(px_change); }
@at end
    proof { assert(self.px() == px_change(s1, p as int, r as int)); }
@fn direct_ports::lzhuf::LZSS::delete_node
@contract
    requires old(self).inv(), p < 4096,
    ensures
        final(self).dims(), final(self).dictionary == old(self).dictionary,
        final(self).match_length == old(self).match_length, final(self).match_position == old(self).match_position,
        del_post(old(self).tv(), old(self).ring(), p as int, final(self).tv()),
        /*FN*/ final(self).tv() == del_fn(old(self).tv(), p as int),
@at start
    hide(px_tv); hide(tv_below); hide(tv_move); hide(tv_replace); hide(tv_drop); hide(del_t2);
    let ghost s0 = self.px();
    let ghost t0 = self.tv();
    let ghost b = self.ring();
    let ghost rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    proof {
        reveal(del_fn);
        lemma_px_view(s0, rk, p as int);
        lemma_del_start(t0, b, p as int);
        if s0.d[p as int] != 4096 { lemma_px_node(s0, rk, p as int); }
    }
@at before "q = self.lson[p]" #1
    let ghost l = s0.l[p as int] as int;
    let ghost rr = s0.r[p as int] as int;
    proof {
        lemma_px_node(s0, rk, l); lemma_px_node(s0, rk, rr);
        lemma_px_view(s0, rk, l);
        if s0.r[l] == 4096 { lemma_px_left(s0, b, p as int); lemma_del_done(t0, b, p as int, l, tv_move(t0, rr, l, 1)); }
    }
@loop 0
    invariant_except_break
        q == l || tv_below(t0, q as int, 1, l), s0.r[q as int] != 4096,
    invariant
        /*FN*/ tv_end(t0, q as int, 1) == tv_end(t0, l, 1),
        self.px() == s0, px_len(s0), t0 == px_tv(s0), tv_inv(t0, b), tv_rk(t0, rk), 0 <= l < 4096, q < 4096, s0.d[q as int] != 4096,
        self.dictionary == old(self).dictionary, self.match_length == old(self).match_length, self.match_position == old(self).match_position,
    ensures
        /*FN*/ q == tv_end(t0, l, 1),
        tv_below(t0, q as int, 1, l), s0.r[q as int] == 4096,
    decreases rk[q as int],
@at loop0.begin
    let ghost q0 = q as int;
    proof { lemma_px_node(s0, rk, q0); lemma_px_links(s0, q0); lemma_px_links(s0, s0.r[q0] as int); lemma_px_view(s0, rk, q0); lemma_tv_below(t0, q0, 1, l, s0.r[q0] as int); lemma_px_node(s0, rk, s0.r[q0] as int); assert(tv_ok(t0)); assert(tv_end(t0, q0, 1) == tv_end(t0, s0.r[q0] as int, 1)); assert(s0.r[s0.r[q0] as int] == 4096 ==> tv_end(t0, s0.r[q0] as int, 1) == s0.r[q0]); }
@at loop0.after
    proof {
        lemma_px_node(s0, rk, q as int);
        lemma_px_view(s0, rk, q as int);
        lemma_px_below(s0, rk, q as int, l);
        lemma_px_deep(s0, b, p as int, q as int);
        lemma_del_term(t0, b, p as int, l, rr, q as int);
        lemma_del_done(t0, b, p as int, q as int, tv_move(tv_move(del_t2(t0, q as int), l, q as int, 0), rr, q as int, 1));
    }
@at before "self.dad[q] = self.dad[p]"
    let ghost s1 = self.px();
    proof {
        if s0.r[p as int] == 4096 || s0.l[p as int] == 4096 {
            if q == 4096 { lemma_px_drop(s0, b, p as int); }
            else { lemma_px_single(s0, b, p as int, q as int); lemma_del_done(t0, b, p as int, q as int, t0); }
        }
    }
@at end
    proof { assert(self.px() == px_swap(s1, p as int, q as int)); }
@fn direct_ports::lzhuf::encode
@ret r
@contract
    requires 0 <= old(compressed_out).pos(),
    ensures
        /*C09*/ old(expanded_in).data().len() < u32::MAX ==> (r matches Err(e) ==> is_fault(e)),
        /*C10*/ r matches Ok((n, m)) ==> n == old(expanded_in).data().len(),
        /*C10*/ r matches Ok((n, m)) ==> (old(compressed_out).pos() == 0 && old(compressed_out).data().len() == 0 ==> final(compressed_out).data().len() == m),
        /*C11*/ r is Ok ==> forall|i: int| 0 <= i < old(compressed_out).pos() && i < old(compressed_out).data().len() ==> #[trigger] final(compressed_out).data()[i] == old(compressed_out).data()[i],
        /*C11*/ r matches Ok((n, m)) ==> final(compressed_out).data().len() == old(compressed_out).data().len() || final(compressed_out).data().len() == m,
        /*C14*/ r is Ok ==> final(expanded_in).failed() == old(expanded_in).failed() && final(compressed_out).failed() == old(compressed_out).failed(),
        /*FN*/ r matches Ok((a, b)) ==> ({ let s = port_encode(old(expanded_in).data()); b == old(compressed_out).pos() + s.len() && placed(old(compressed_out).data(), old(compressed_out).pos(), s, final(compressed_out).data()) }),
        /*FN*/ r is Ok && (old(expanded_in).data().len() == 0 || old(expanded_in).data().len() >= 119) ==> port_encode(old(expanded_in).data()) == ring_encode(old(expanded_in).data()),
        ({
            let x = old(expanded_in).data();
            let off = old(compressed_out).pos();
            match r {
                Ok((a, b)) => {
                    &&& a == x.len() && a < u32::MAX
                    &&& b <= MAX_LEN
                    &&& exists|s: Seq<u8>| #[trigger] port_encodes(x, s) && b == off + s.len() && placed(old(compressed_out).data(), off, s, final(compressed_out).data())
                },
                Err(e) => {
                    ||| is_fault(e)
                    ||| is_lib(e, crate::Error::FileTooLarge) && x.len() >= u32::MAX && final(compressed_out).data() == old(compressed_out).data()
                },
            }
        }),
@at start
    hide(tv_inv); hide(px_tv); hide(AdaptiveHuffman::inv);
    broadcast use lemma_wr_shape;
    let ghost x = expanded_in.data();
    let ghost d0 = compressed_out.data();
    let ghost off = compressed_out.pos();
    let ghost p = port_params(0);
    let ghost pe = enc_params();
    let ghost hs: Seq<u8> = le_bytes(x.len(), 4);
    let ghost t0 = ht_init(314);
    let ghost mut bits = Seq::<bool>::empty();
    let ghost mut done: int = 0;
    let ghost all = es_codes(pe, x, es_start(pe, x, 59), t0);
    let ghost ring = es_codes(pe, x, es_start(pe, x, 0), t0);
    proof {
        lemma_placed_nothing(d0, off);
        if x.len() <= u32::MAX { lemma_le4(x.len()); assert(hs.take(4) =~= hs); }
        assert(p.nsym() == 314);
        lemma_lze_start(p);
    }
@at before "if expanded_length == 0"
    let ghost d1 = writer.data();
    let ghost off1 = off + 4;
    proof {
        lemma_placed_append(d0, off, Seq::empty(), d0, hs);
        assert(Seq::<u8>::empty() + hs =~= hs);
        lemma_coder_start(true, d1, off1);
    }
@at before "return Ok((0"
        proof {
            let e = Seq::<u8>::empty();
            assert(x =~= e);
            assert(pack_msb(Seq::<bool>::empty()) =~= e);
            assert(lz_end(p, x, e, bits, t0));
            assert(lz_done(p, x, e));
            assert(hs.skip(4) =~= e);
            assert(port_encodes(x, hs));
            reveal(port_encode); reveal(ring_encode); /*FN*/
        }
@loop 0
    invariant
        lzss.dims(), r == 4036, s == 0,
        lzss.tv().nodes == Seq::new(4096, |i: int| gn_empty()), lzss.tv().roots == Seq::new(256, |i: int| None::<usize>),
        forall|k: int| 0 <= k < i ==> #[trigger] lzss.dictionary@[k] == 32,
        /*FN*/ lzss.match_length == 0 && lzss.match_position == 0 && forall|k: int| i <= k < 4155 ==> #[trigger] lzss.dictionary@[k] == 0,
@loop 1
    invariant
        /*C14*/ bytes.failed() == old(expanded_in).failed(),
        bytes.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        x == old(expanded_in).data(), x.len() < u32::MAX,
        bytes.data() == x, bytes.pos() == len, len <= x.len(), len <= 60, r == 4036, s == 0,
        lzss.dims(),
        lzss.tv().nodes == Seq::new(4096, |i: int| gn_empty()), lzss.tv().roots == Seq::new(256, |i: int| None::<usize>),
        forall|k: int| 0 <= k < 4036 ==> #[trigger] lzss.dictionary@[k] == 32,
        forall|k: int| 0 <= k < len ==> lzss.dictionary@[4036 + k] == #[trigger] x[k],
        /*FN*/ lzss.match_length == 0 && lzss.match_position == 0 && forall|k: int| 4036 + len <= k < 4155 ==> #[trigger] lzss.dictionary@[k] == 0,
    ensures
        len < 60 ==> len == x.len(),
    decreases 60 - len,
@at loop1.after
    let ghost dict1 = lzss.dictionary@;
    let ghost b1 = lzss.ring();
    proof {
        assert(dict1 =~= es_window(pe, x, 59)); /*FN*/
        assert(b1 =~= es_window(pe, x, 0)); /*FN*/
        assert(lzss.tv() == es_before(pe, x, 59, 0).tv); /*FN*/
        lemma_px_win_start(p, x, len as int, dict1);
        lemma_within_start(lzss.tv(), 4096, b1, 4036);
    }
@loop 2
    invariant
        r == 4036, dict1.len() == 4155, b1 == dict1.take(4096), lzss.dictionary@ == dict1,
        lzss.inv(), lzss.tv().nodes.len() == 4096, within(lzss.tv(), 4036 - (i - 1), 4036), p == port_params(0), pe == enc_params(),
        /*FN*/ lzss.es(4036 - (i - 1), len as int, 0) == es_before(pe, x, 59, (i - 1) as nat),
        /*FN*/ lzss.es_ring(4036 - (i - 1), len as int, 0) == es_before(pe, x, 0, (i - 1) as nat),
@at loop2.begin
    let ghost tb = lzss.tv();
    proof {
        lemma_within_free(tb, 4036 - (i - 1), 4036, 4036 - i);
        lemma_px_early(tb, b1, dict1, 4036 - i, lzss.match_position as int); /*FN*/
    }
@at loop2.end
    proof { lemma_within_ins(tb, b1, 4036 - i, 4036, lzss.tv()); }
@at before "lzss.insert_node(r)" #0
    let ghost tb = lzss.tv();
    proof {
        lemma_within_near(tb, 4096, 3976, 4036, 4036);
        lemma_near_free(tb, 4036, 4096, 4036);
        if x.len() >= 119 { lemma_px_search(tb, p, x, 0, len as int, dict1, 4036, lzss.match_position as int); } /*FN*/
    }
@at after "lzss.insert_node(r)" #0
    proof {
        lemma_px_can_copy(tb, p, x, 0, len as int, dict1, 4036, lzss.match_length as int, lzss.match_position as int);
        lemma_near_ins(tb, b1, 4096, 4036, 4036, lzss.tv());
        assert(x.take(0) =~= Seq::<u8>::empty());
        assert(lzss.es(4036, len as int, 0) == es_start(pe, x, 59)); /*FN*/
        assert(x.len() >= 119 ==> lzss.es_ring(4036, len as int, 0) == es_start(pe, x, 0)); /*FN*/
        assert(bits + all =~= all && bits + ring =~= ring); /*FN*/
        assert forall|y: usize| #![trigger (y & 4095)] y < 5000 implies (y & 4095) == y % 4096 by { assert(y < 5000 ==> (y & 4095) == y % 4096) by(bit_vector); }
    }
@loop 3
    invariant_except_break
        len >= 1,
        lzss.inv(), near(lzss.tv(), r as int, 4096, 0, 4036),
        can_copy(p, x, done, if lzss.match_length < len { lzss.match_length as int } else { len as int }, lzss.match_position as int),
        lzss.match_length <= 60,
    invariant
        /*C14*/ bytes.failed() == old(expanded_in).failed(),
        bytes.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        x == old(expanded_in).data(), d0 == old(compressed_out).data(), off == old(compressed_out).pos(), 0 <= off, off1 == off + 4, p == port_params(0), pe == enc_params(), expanded_length == x.len(), x.len() < u32::MAX,
        *final(writer.inner) == *final(old(compressed_out)),
        coder_at(true, d1, off1, bits, writer.data(), writer.pos(), huff.bits@),
        huff.inv(), huff.ptr == 0, huff.bits@.len() < 8,
        0 <= writer.pos() <= MAX_LEN,
        lz_enc(p, bits, huff.ht(), x.take(done)),
        /*FN*/ all == es_codes(pe, x, es_start(pe, x, 59), t0) && all == bits + es_codes(pe, x, lzss.es(r as int, len as int, done), huff.ht()),
        /*FN*/ x.len() >= 119 ==> ring == es_codes(pe, x, es_start(pe, x, 0), t0) && ring == bits + es_codes(pe, x, lzss.es_ring(r as int, len as int, done), huff.ht()),
        px_win(p, x, done, len as int, lzss.dictionary@, r as int), s == (r + 60) % 4096,
        bytes.data() == x, bytes.pos() == done + len, done + len <= x.len(),
        len < 60 ==> done + len == x.len(),
        forall|y: usize| #![trigger (y & 4095)] y < 5000 ==> (y & 4095) == y % 4096,
    ensures
        len == 0,
    decreases x.len() - done,
@at loop3.begin
    let ghost (wd, wp, hb, ht) = (writer.data(), writer.pos(), huff.bits@, huff.ht());
    let ghost dn = done;
    let ghost len0 = len as int;
    let ghost s0 = lzss.es(r as int, len as int, done);
    let ghost s1 = ES { ml: es_take(pe, s0), ..s0 };
    let ghost s2 = ES { b: lzss.ring(), ..s0 };
    let ghost s3 = ES { b: lzss.ring(), ..s1 };
    proof {
        lemma_es_codes(pe, x, s0, huff.ht(), bits, all); /*FN*/
        if x.len() >= 119 { lemma_es_codes(pe, x, s2, huff.ht(), bits, ring); } /*FN*/
        lemma_px_win_facts(p, x, done, len as int, lzss.dictionary@, r as int); }
@at before "huff.encode_char(lzss"
            let ghost c = x[dn];
            let ghost new = huf_code(ht, ht_leaf_of(ht, c as int));
@at after "huff.encode_char(lzss"
            proof {
                lemma_codes_done(d1, off1, bits, wd, wp, hb, new, writer.data(), writer.pos(), huff.bits@);
                lemma_lze_literal(p, bits, ht, x.take(dn), c);
                bits = bits + new;
                assert(x.take(dn).push(c) =~= x.take(dn + 1));
            }
@at before "huff.encode_char((255"
            let ghost n = lzss.match_length as int;
            let ghost c1 = huf_code(ht, ht_leaf_of(ht, 255 - p.thr + n));
            proof { lemma_can_copy_less(p, x, dn, n, lzss.match_position as int, n); }
@at after "huff.encode_char((255"
            let ghost (wd1, wp1, hb1) = (writer.data(), writer.pos(), huff.bits@);
@at after "huff.encode_position"
            proof {
                let c2 = pos_bits(lzss.match_position as int);
                lemma_codes_two(wd, wp, hb, c1, wd1, wp1, hb1, c2, writer.data(), writer.pos(), huff.bits@);
                lemma_codes_done(d1, off1, bits, wd, wp, hb, c1 + c2, writer.data(), writer.pos(), huff.bits@);
                lemma_lze_match(p, bits, ht, x.take(dn), n, lzss.match_position as int);
                bits = bits + (c1 + c2);
            }
@loop 4
    invariant_except_break
        len == len0,
    invariant
        /*C14*/ bytes.failed() == old(expanded_in).failed(),
        bytes.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        x.len() < u32::MAX, p == port_params(0), pe == enc_params(), 0 <= i <= last_match_length <= len0, 1 <= last_match_length, done == dn + i, len == len0,
        lzss.inv(), near(lzss.tv(), r as int, 4096, 0, 4036),
        px_win(p, x, done, len as int, lzss.dictionary@, r as int), s == (r + 60) % 4096,
        bytes.data() == x, bytes.pos() == done + len, done + len <= x.len(),
        len < 60 ==> done + len == x.len(),
        lzss.match_length <= 60,
        /*FN*/ lzss.es(r as int, len as int, done) == es_steps(pe, x, s1, i as nat),
        /*FN*/ x.len() >= 119 ==> lzss.es_ring(r as int, len as int, done) == es_steps(pe, x, s3, i as nat),
        i > 0 ==> can_copy(p, x, done, if lzss.match_length < len { lzss.match_length as int } else { len as int }, lzss.match_position as int),
        forall|y: usize| #![trigger (y & 4095)] y < 5000 ==> (y & 4095) == y % 4096,
    ensures
        i < last_match_length ==> done + len == x.len(),
    decreases last_match_length - i,
@at loop4.begin
    let ghost (dict, b, pos, tz) = (lzss.dictionary@, lzss.ring(), r as int, lzss.tv());
    proof { lemma_px_win_facts(p, x, done, len as int, dict, pos); }
@at before "lzss.dictionary[s] = c"
    let ghost t1 = lzss.tv();
    proof {
        lemma_near_step(tz, b, p, pos, t1);
        lemma_inv_set(t1, b, ring_ah(pos, 4096, 60), c);
        lemma_px_win_push(p, x, done, dict, pos, c);
    }
@at before "lzss.insert_node(r)" #1
    proof {
        assert(lzss.dictionary@ == px_put(dict, ring_ah(pos, 4096, 60), c));
        assert(r == ring_ah(pos, 4096, 1));
        if x.len() >= 119 { lemma_px_search(t1, p, x, done + 1, len as int, lzss.dictionary@, r as int, lzss.match_position as int); } /*FN*/
    }
@at before "i += 1" #0
    proof {
        reveal(es_step); /*FN*/
        done = done + 1;
        lemma_px_can_copy(t1, p, x, done, len as int, lzss.dictionary@, r as int, lzss.match_length as int, lzss.match_position as int);
        lemma_near_ins(t1, lzss.ring(), 4096, 4036, r as int, lzss.tv());
    }
@loop 5
    invariant
        x.len() < u32::MAX, p == port_params(0), pe == enc_params(), 0 <= i <= last_match_length <= len0, 1 <= last_match_length, done == dn + i, len <= len0, last_match_length - i <= len,
        len > 0 || i < last_match_length ==> lzss.inv() && near(lzss.tv(), r as int, 4096, 0, 4036),
        px_win(p, x, done, len as int, lzss.dictionary@, r as int), s == (r + 60) % 4096,
        bytes.data() == x, bytes.pos() == done + len, done + len <= x.len(),
        len < 60 ==> done + len == x.len(),
        i < last_match_length ==> done + len == x.len(),
        lzss.match_length <= 60,
        /*FN*/ lzss.es(r as int, len as int, done) == es_steps(pe, x, s1, i as nat),
        /*FN*/ x.len() >= 119 ==> lzss.es_ring(r as int, len as int, done) == es_steps(pe, x, s3, i as nat),
        i > 0 && len > 0 ==> can_copy(p, x, done, if lzss.match_length < len { lzss.match_length as int } else { len as int }, lzss.match_position as int),
        forall|y: usize| #![trigger (y & 4095)] y < 5000 ==> (y & 4095) == y % 4096,
    decreases last_match_length - i,
@at loop5.begin
    let ghost (dict, b, pos, tz) = (lzss.dictionary@, lzss.ring(), r as int, lzss.tv());
    let ghost mo0 = lzss.match_position as int;
    proof { lemma_px_win_facts(p, x, done, len as int, dict, pos); }
@at before "s = (s+1)" #1
    let ghost t1 = lzss.tv();
    proof {
        lemma_near_step(tz, b, p, pos, t1);
        lemma_px_win_pass(p, x, done, len as int, dict, pos);
    }
@at before "i += 1" #1
    proof {
        reveal(es_step); /*FN*/
        done = done + 1;
        if len > 0 {
            if x.len() >= 119 { lemma_px_search(t1, p, x, done, len as int, lzss.dictionary@, r as int, mo0); } /*FN*/
            lemma_px_can_copy(t1, p, x, done, len as int, lzss.dictionary@, r as int, lzss.match_length as int, lzss.match_position as int);
            lemma_near_ins(t1, lzss.ring(), 4096, 4036, r as int, lzss.tv());
        }
    }
@at before "huff.finish"
    proof {
        lemma_coder_bits(true, d1, off1, bits, writer.data(), writer.pos(), huff.bits@);
        lemma_coder_end(true, d1, off1, bits, writer.data(), writer.pos(), huff.bits@);
        let b = pack_msb(bits);
        lemma_es_codes_end(pe, x, lzss.es(r as int, len as int, done), huff.ht(), bits, all); /*FN*/
        if x.len() >= 119 { lemma_es_codes_end(pe, x, lzss.es_ring(r as int, len as int, done), huff.ht(), bits, ring); } /*FN*/
        reveal(port_encode); reveal(ring_encode); /*FN*/
        assert(x.take(done) =~= x);
        assert(lz_end(p, x, b, bits, huff.ht()));
        assert(lz_done(p, x, b));
        assert((hs + b).skip(4) =~= b);
        assert((hs + b).take(4) =~= hs);
        lemma_placed_append(d0, off, hs, d1, b);
        assert(port_encodes(x, hs + b));
    }
@fn direct_ports::lzhuf::encode_slice
@ret r
@contract
    ensures
        match r {
            Ok(v) => port_encodes(slice@, v@),
            Err(e) => is_fault(e) || is_lib(e, crate::Error::FileTooLarge) && slice@.len() >= u32::MAX,
        },
        /*FN*/ r matches Ok(v) ==> v@ == port_encode(slice@) && (slice@.len() == 0 || slice@.len() >= 119 ==> v@ == ring_encode(slice@)),
@at end
    proof {
        let s = choose|s: Seq<u8>| #[trigger] port_encodes(slice@, s) && placed(Seq::empty(), 0, s, ans.inner@);
        lemma_placed_all(s, ans.inner@);
        lemma_placed_all(port_encode(slice@), ans.inner@); /*FN*/
    }
@module direct_ports::lzhuf
/// C03: what the port encodes it decodes to the same bytes
pub fn client_lossless(x: &[u8])
{
    match encode_slice(x) {
        Ok(v) => {
            proof { lemma_port_lossless(x@, v@); }
            match decode_slice(v.as_slice()) {
                Ok(y) => { assert(y@ == x@); }
                Err(e) => { assert(is_fault(e)); }
            }
        }
        Err(e) => { assert(is_fault(e) || x@.len() >= u32::MAX); }
    }
}
pub fn client_lossless_ok(x: &[u8])
    requires io_works(), x@.len() < u32::MAX
{
    let r = encode_slice(x);
    assert(r is Ok);
    let v = match r { Ok(v) => v, Err(_) => return };
    proof { lemma_port_lossless(x@, v@); }
    let q = decode_slice(v.as_slice());
    assert(q is Ok && q->Ok_0@ == x@);
}
/// C04: each side reads what the other one writes
pub fn client_interchange(x: &[u8], o: &crate::lzss_huff::Options)
    requires lzss_opts_ok(*o), std_opts(*o), o.in_offset == 0, o.out_offset == 0, x@.len() <= u32::MAX
{
    assert(body(x@, 0) =~= x@);
    match encode_slice(x) {
        Ok(v) => {
            assert(body(v@, 0) =~= v@);
            proof { lemma_lzhuf_port(x@, v@, *o); }
            match crate::lzss_huff::expand_slice(v.as_slice(), o) {
                Ok(y) => { assert(y@ == x@); }
                Err(e) => { assert(is_fault(e) || v@.len() > o.max_file_size); }
            }
        }
        Err(e) => { assert(is_fault(e) || x@.len() >= u32::MAX); }
    }
    match crate::lzss_huff::compress_slice(x, o) {
        Ok(v) => {
            proof { lemma_lzhuf_port(x@, v@, *o); }
            match decode_slice(v.as_slice()) {
                Ok(y) => { assert(y@ == x@); }
                Err(e) => { assert(is_fault(e)); }
            }
        }
        Err(e) => { assert(is_fault(e) || x@.len() > o.max_file_size); }
    }
}
/// C04: and on streams that work nothing else can happen
pub fn client_interchange_ok(x: &[u8], o: &crate::lzss_huff::Options)
    requires lzss_opts_ok(*o), std_opts(*o), o.in_offset == 0, o.out_offset == 0, x@.len() < u32::MAX, x@.len() <= o.max_file_size, io_works()
{
    assert(body(x@, 0) =~= x@);
    let r = encode_slice(x);
    assert(r is Ok);
    let v = match r { Ok(v) => v, Err(_) => return };
    assert(body(v@, 0) =~= v@);
    if v.len() as u64 <= o.max_file_size {
        proof { lemma_lzhuf_port(x@, v@, *o); }
        let q = crate::lzss_huff::expand_slice(v.as_slice(), o);
        assert(q is Ok && q->Ok_0@ == x@);
    }
    let r = crate::lzss_huff::compress_slice(x, o);
    assert(r is Ok);
    let v = match r { Ok(v) => v, Err(_) => return };
    proof { lemma_lzhuf_port(x@, v@, *o); }
    let q = decode_slice(v.as_slice());
    assert(q is Ok && q->Ok_0@ == x@);
}
/// C11: two runs on the same data into any streams give the same bytes
pub fn client_same_encode<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, c: &mut Q, e: &mut V)
    requires old(a).data() == old(c).data(), 0 <= old(b).pos(), 0 <= old(e).pos(), old(a).data().len() < u32::MAX, io_works()
{
    let ghost x = a.data();
    let ghost (b0, o, e0, p) = (b.data(), b.pos(), e.data(), e.pos());
    let r = encode(a, b);
    let q = encode(c, e);
    assert(r is Ok && q is Ok);
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m - o == l - p); /*FN*/
        proof {
            if port_encode(x).len() > 0 {
                lemma_placed_range(b0, o, port_encode(x), b.data()); /*FN*/
                lemma_placed_range(e0, p, port_encode(x), e.data()); /*FN*/
                assert(b.data().subrange(o, m as int) == e.data().subrange(p, l as int)); /*FN*/
            }
        }
    }
}
pub fn client_same_decode<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, c: &mut Q, e: &mut V)
    requires old(a).data() == old(c).data(), old(a).pos() == 0, old(c).pos() == 0, old(b).pos() == 0, old(e).pos() == 0, io_works()
{
    let ghost x = a.data();
    let ghost (b0, e0) = (b.data(), e.data());
    assert(a.data().skip(0) =~= x && c.data().skip(0) =~= x);
    let r = decode(a, b);
    let q = decode(c, e);
    assert(r is Ok == q is Ok);
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m == l);
        proof {
            if m > 0 {
                lemma_placed_range(b0, 0, port_decode(x)->0, b.data());
                lemma_placed_range(e0, 0, port_decode(x)->0, e.data());
                assert(b.data().subrange(0, m as int) == e.data().subrange(0, m as int));
            }
        }
    }
}
/// C15
pub fn client_bit_exact(x: &[u8], o: &crate::lzss_huff::Options)
    requires lzss_opts_ok(*o), std_opts(*o), o.in_offset == 0, o.out_offset == 0, x@.len() <= u32::MAX, x@.len() == 0 || x@.len() >= 119
{
    assert(body(x@, 0) =~= x@);
    proof { lemma_ring_encode(x@, *o); }
    if let (Ok(v), Ok(w)) = (encode_slice(x), crate::lzss_huff::compress_slice(x, o)) { assert(v@ == w@); /*FN*/ }
}
/// C09
pub fn client_accepts<R: Read + Seek, W: Write + Seek>(a: &mut R, b: &mut W)
    requires old(a).data().len() < u32::MAX, 0 <= old(b).pos(), io_works()
{
    let r = encode(a, b);
    assert(r is Ok);
}
@end
