@module lzss_huff
impl LZSS {
    pub open spec fn tree_inv(&self) -> bool {
        &&& self.dictionary.inv() && 2 <= self.dictionary.at().len()
        &&& tv_inv(self.index.tv(), self.dictionary.at())
    }
    /// the state of the search, with len bytes ahead and done bytes behind
    pub open spec fn es(&self, len: int, done: int) -> ES {
        ES { tv: self.index.tv(), b: self.dictionary.at(), pos: self.dictionary.cur(), ml: self.match_length as int, mo: self.match_offset as int, len: len, done: done }
    }
}
@fn lzss_huff::LZSS::create
@ret r
@contract
    requires 2 <= opt.window_size <= 4096,
    ensures
        r.opt == opt, r.dictionary.inv(), r.dictionary.cur() == 0,
        r.dictionary.at() == Seq::new(opt.window_size as nat, |i: int| 0u8),
        r.index.tv().nodes == Seq::new(opt.window_size as nat, |i: int| gn_empty()), r.index.tv().roots == Seq::new(256, |i: int| None::<usize>),
        /*FN*/ r.match_length == 0 && r.match_offset == 0,
@fn lzss_huff::compress
@ret r
@contract
    requires
        lzss_opts_ok(*opt),
        opt.in_offset <= old(expanded_in).data().len(),
        opt.header ==> opt.max_file_size <= u32::MAX || old(expanded_in).data().len() - opt.in_offset <= u32::MAX,
    ensures
        /*C09*/ opt.in_offset <= old(expanded_in).data().len() && old(expanded_in).data().len() - opt.in_offset <= opt.max_file_size ==> (r matches Err(e) ==> is_fault(e)),
        /*C10*/ old(expanded_in).data().len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge) && final(compressed_out).data() == old(compressed_out).data())),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> old(expanded_in).data().len() - opt.in_offset > opt.max_file_size,
        /*C10*/ r matches Ok((n, m)) ==> n == old(expanded_in).data().len() - opt.in_offset,
        /*C10*/ r matches Ok((n, m)) ==> (m > 0 && old(compressed_out).data().len() <= opt.out_offset ==> final(compressed_out).data().len() == opt.out_offset + m),
        /*C11*/ r is Ok ==> forall|i: int| 0 <= i < opt.out_offset && i < old(compressed_out).data().len() ==> #[trigger] final(compressed_out).data()[i] == old(compressed_out).data()[i],
        /*C11*/ r matches Ok((n, m)) ==> final(compressed_out).data().len() == old(compressed_out).data().len() || final(compressed_out).data().len() == opt.out_offset + m,
        /*C14*/ r is Ok ==> final(expanded_in).failed() == old(expanded_in).failed() && final(compressed_out).failed() == old(compressed_out).failed(),
        /*FN*/ r matches Ok((a, b)) ==> ({ let s = lzss_encode(body(old(expanded_in).data(), opt.in_offset), *opt); b == s.len() && placed(old(compressed_out).data(), opt.out_offset as int, s, final(compressed_out).data()) }),
        ({
            let d = old(expanded_in).data();
            match r {
                Ok((a, b)) => {
                    let x = body(d, opt.in_offset);
                    &&& a == x.len() && a <= opt.max_file_size
                    &&& b <= MAX_LEN
                    &&& exists|s: Seq<u8>| #[trigger] lzhuf_encodes(x, s, *opt) && b == s.len()
                            && placed(old(compressed_out).data(), opt.out_offset as int, s, final(compressed_out).data())
                },
                Err(e) => {
                    ||| is_fault(e)
                    ||| is_lib(e, crate::Error::FileTooLarge) && d.len() - opt.in_offset > opt.max_file_size
                            && final(compressed_out).data() == old(compressed_out).data()
                },
            }
        }),

@at start
    hide(tv_inv); hide(crate::tools::adaptive_huff::AdaptiveHuffmanTree::inv);
    broadcast use lemma_wr_shape;
    let ghost o = *opt;
    let ghost d = expanded_in.data();
    let ghost d0 = compressed_out.data();
    let ghost off = opt.out_offset as int;
    let ghost x = body(d, opt.in_offset);
    let ghost p = lzss_params(o, 0);
    let ghost hs: Seq<u8> = if o.header { le_bytes(x.len(), 4) } else { Seq::empty() };
    let ghost t0 = ht_init(p.nsym());
    let ghost mut bits = Seq::<bool>::empty();
    let ghost mut done: int = 0;
    let ghost all = es_codes(p, x, es_start(p, x, 0), t0);
    proof {
        lemma_placed_nothing(d0, off);
        if o.header && x.len() <= u32::MAX { lemma_le4(x.len()); assert(hs.take(4) =~= hs); }
        lemma_lze_start(p);
    }
@at before "if expanded_length == 0"
    let ghost d1 = writer.data();
    let ghost off1 = off + hs.len();
    proof { lemma_coder_start(true, d1, off1); }
@at before "return Ok((0"
        proof {
            let e = Seq::<u8>::empty();
            assert(x =~= e);
            assert(pack_msb(Seq::<bool>::empty()) =~= e);
            assert(lz_end(p, x, e, bits, t0));
            assert(lz_done(p, x, e));
            if o.header { assert(hs.skip(4) =~= e); }
            reveal(lzss_encode); /*FN*/
            assert(lzhuf_encodes(x, hs, o));
        }
@loop 0
    invariant
        *opt == o, lzss_opts_ok(o), start_pos == o.window_size - o.lookahead,
        lzss.opt == o, lzss.index.tv().nodes == Seq::new(o.window_size as nat, |i: int| gn_empty()), lzss.index.tv().roots == Seq::new(256, |i: int| None::<usize>),
        lzss.dictionary.inv(), lzss.dictionary.cur() == 0, lzss.dictionary.at().len() == o.window_size,
        forall|k: int| 0 <= k < i ==> #[trigger] lzss.dictionary.at()[k] == o.precursor,
        /*FN*/ lzss.match_length == 0 && lzss.match_offset == 0 && forall|k: int| i <= k < o.window_size ==> #[trigger] lzss.dictionary.at()[k] == 0,
@at loop0.begin
    proof { lemma_ring_mod(i as int, o.window_size as int, 0); }
@at loop0.after
    proof { lemma_ring_mod(start_pos as int, o.window_size as int, 0); }
@loop 1
    invariant
        /*C14*/ bytes.failed() == old(expanded_in).failed(),
        bytes.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        *opt == o, lzss_opts_ok(o), start_pos == o.window_size - o.lookahead, d == old(expanded_in).data(), x == body(d, o.in_offset), o.in_offset <= d.len() <= MAX_LEN,
        bytes.data() == d, bytes.pos() == o.in_offset + len, len <= x.len(), len <= o.lookahead,
        lzss.opt == o, lzss.index.tv().nodes == Seq::new(o.window_size as nat, |i: int| gn_empty()), lzss.index.tv().roots == Seq::new(256, |i: int| None::<usize>),
        lzss.dictionary.inv(), lzss.dictionary.cur() == start_pos, lzss.dictionary.at().len() == o.window_size,
        forall|k: int| 0 <= k < start_pos ==> #[trigger] lzss.dictionary.at()[k] == o.precursor,
        forall|k: int| 0 <= k < len ==> lzss.dictionary.at()[start_pos + k] == #[trigger] x[k],
        /*FN*/ lzss.match_length == 0 && lzss.match_offset == 0 && forall|k: int| start_pos + len <= k < o.window_size ==> #[trigger] lzss.dictionary.at()[k] == 0,
    ensures
        len < o.lookahead ==> len == x.len(),
    decreases o.lookahead - len,
@at loop1.begin
    proof { lemma_ring_mod(start_pos + len, o.window_size as int, 0); }
@at loop1.after
    let ghost b1 = lzss.dictionary.at();
    proof {
        assert(b1 =~= es_window(p, x, 0)); /*FN*/
        assert(lzss.index.tv() == es_before(p, x, 0, 0).tv); /*FN*/
        lemma_win_start(p, x, len as int, b1);
        lemma_within_start(lzss.index.tv(), o.window_size as int, b1, start_pos as int);
    }
@loop 2
    invariant
        *opt == o, lzss_opts_ok(o), start_pos == o.window_size - o.lookahead, b1.len() == o.window_size,
        lzss.opt == o, lzss.dictionary.inv(), lzss.dictionary.at() == b1, lzss.dictionary.cur() == start_pos - (_i - 1),
        lzss.index.tv().nodes.len() == o.window_size, tv_inv(lzss.index.tv(), b1), within(lzss.index.tv(), start_pos - (_i - 1), start_pos as int),
        p == lzss_params(o, 0),
        /*FN*/ lzss.es(len as int, 0) == es_before(p, x, 0, (_i - 1) as nat),
@at loop2.begin
    let ghost tb = lzss.index.tv();
    proof { lemma_within_free(tb, start_pos - (_i - 1), start_pos as int, start_pos - _i); }
@at loop2.end
    proof { lemma_within_ins(tb, b1, start_pos - _i, start_pos as int, lzss.index.tv()); }
@at before "lzss.insert_node()?" #1
    let ghost tb = lzss.index.tv();
    proof {
        lemma_ring_mod(start_pos as int, o.window_size as int, 0);
        lemma_within_near(tb, p.w, start_pos - o.lookahead, start_pos as int, p.w - p.la);
        lemma_near_free(tb, start_pos as int, p.w, p.w - p.la);
    }
@at after "lzss.insert_node()?" #1
    proof {
        lemma_can_copy(tb, p, x, 0, len as int, b1, start_pos as int, lzss.match_length as int, lzss.match_offset as int);
        lemma_near_ins(tb, b1, p.w, p.w - p.la, start_pos as int, lzss.index.tv());
        assert(x.take(0) =~= Seq::<u8>::empty());
        assert(lzss.es(len as int, 0) == es_start(p, x, 0)); /*FN*/
        assert(bits + all =~= all); /*FN*/
    }
@loop 3
    invariant_except_break
        len >= 1,
        lzss.tree_inv(), near(lzss.index.tv(), lzss.dictionary.cur(), p.w, 0, p.w - p.la),
        can_copy(p, x, done, if lzss.match_length < len { lzss.match_length as int } else { len as int }, lzss.match_offset as int),
        lzss.match_length <= o.lookahead,
    invariant
        /*C14*/ bytes.failed() == old(expanded_in).failed(),
        bytes.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        *opt == o, lzss_opts_ok(o), d == old(expanded_in).data(), d0 == old(compressed_out).data(), x == body(d, o.in_offset), o.in_offset <= d.len() <= MAX_LEN,
        p == lzss_params(o, 0), off == o.out_offset, off1 == off + hs.len(), hs.len() <= 4, expanded_length == x.len(),
        *final(writer.inner) == *final(old(compressed_out)),
        coder_at(true, d1, off1, bits, writer.data(), writer.pos(), huff.bits@),
        huff.tree.inv(), huff.tree.num_symb == p.nsym(), huff.ptr == 0, huff.bits@.len() < 8,
        0 <= writer.pos() <= MAX_LEN,
        lz_enc(p, bits, huff.tree.ht(), x.take(done)),
        /*FN*/ all == es_codes(p, x, es_start(p, x, 0), t0) && all == bits + es_codes(p, x, lzss.es(len as int, done), huff.tree.ht()),
        lzss.opt == o,
        enc_win(p, x, done, len as int, lzss.dictionary.at(), lzss.dictionary.cur()),
        bytes.data() == d, bytes.pos() == o.in_offset + done + len, done + len <= x.len(),
        len < o.lookahead ==> done + len == x.len(),
    ensures
        len == 0,
    decreases x.len() - done,
@at loop3.begin
    let ghost (wd, wp, hb, ht) = (writer.data(), writer.pos(), huff.bits@, huff.tree.ht());
    let ghost dn = done;
    let ghost len0 = len as int;
    let ghost s0 = lzss.es(len as int, done);
    let ghost s1 = ES { ml: es_take(p, s0), ..s0 };
    proof {
        lemma_es_codes(p, x, s0, huff.tree.ht(), bits, all); /*FN*/
        lemma_win_facts(p, x, done, len as int, lzss.dictionary.at(), lzss.dictionary.cur());
    }
@at before "huff.encode_char(lzss"
            let ghost c = x[dn];
            let ghost new = huf_code(ht, ht_leaf_of(ht, c as int));
@at after "huff.encode_char(lzss"
            proof {
                lemma_codes_done(d1, off1, bits, wd, wp, hb, new, writer.data(), writer.pos(), huff.bits@);
                lemma_lze_literal(p, bits, ht, x.take(dn), c);
                bits = bits + new;
                assert(x.take(dn).push(c) =~= x.take(dn + 1));
            }
@at before "huff.encode_char((255"
            let ghost n = lzss.match_length as int;
            let ghost c1 = huf_code(ht, ht_leaf_of(ht, 255 - p.thr + n));
            proof { lemma_can_copy_less(p, x, dn, n, lzss.match_offset as int, n); }
@at after "huff.encode_char((255"
            let ghost (wd1, wp1, hb1) = (writer.data(), writer.pos(), huff.bits@);
@at after "huff.encode_position"
            proof {
                let c2 = pos_bits(lzss.match_offset as int);
                lemma_codes_two(wd, wp, hb, c1, wd1, wp1, hb1, c2, writer.data(), writer.pos(), huff.bits@);
                lemma_codes_done(d1, off1, bits, wd, wp, hb, c1 + c2, writer.data(), writer.pos(), huff.bits@);
                lemma_lze_match(p, bits, ht, x.take(dn), n, lzss.match_offset as int);
                bits = bits + (c1 + c2);
            }
@loop 4
    invariant_except_break
        len == len0,
    invariant
        /*C14*/ bytes.failed() == old(expanded_in).failed(),
        bytes.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        *opt == o, lzss_opts_ok(o), d == old(expanded_in).data(), x == body(d, o.in_offset), o.in_offset <= d.len() <= MAX_LEN,
        p == lzss_params(o, 0), 0 <= i <= last_match_length <= len0, 1 <= last_match_length, done == dn + i, len == len0,
        lzss.opt == o, lzss.tree_inv(), near(lzss.index.tv(), lzss.dictionary.cur(), p.w, 0, p.w - p.la),
        enc_win(p, x, done, len as int, lzss.dictionary.at(), lzss.dictionary.cur()),
        bytes.data() == d, bytes.pos() == o.in_offset + done + len, done + len <= x.len(),
        len < o.lookahead ==> done + len == x.len(),
        lzss.match_length <= o.lookahead,
        /*FN*/ lzss.es(len as int, done) == es_steps(p, x, s1, i as nat),
        i > 0 ==> can_copy(p, x, done, if lzss.match_length < len { lzss.match_length as int } else { len as int }, lzss.match_offset as int),
    ensures
        i < last_match_length ==> done + len == x.len(),
    decreases last_match_length - i,
@at loop4.begin
    let ghost (b, pos, t0) = (lzss.dictionary.at(), lzss.dictionary.cur(), lzss.index.tv());
    proof { lemma_win_facts(p, x, done, len as int, b, pos); }
@at before "lzss.dictionary.set(opt.lookahead"
    let ghost t1 = lzss.index.tv();
    proof {
        lemma_near_step(t0, b, p, pos, t1);
        lemma_inv_set(t1, b, ring_ah(pos, p.w, p.la), c);
        lemma_win_push(p, x, done, b, pos, c);
    }
@at before "i += 1" #0
    proof {
        reveal(es_step); /*FN*/
        done = done + 1;
        let q = ring_ah(pos, p.w, 1);
        lemma_can_copy(t1, p, x, done, len as int, lzss.dictionary.at(), q, lzss.match_length as int, lzss.match_offset as int);
        lemma_near_ins(t1, lzss.dictionary.at(), p.w, p.w - p.la, q, lzss.index.tv());
    }
@loop 5
    invariant
        *opt == o, lzss_opts_ok(o), d == old(expanded_in).data(), x == body(d, o.in_offset), o.in_offset <= d.len() <= MAX_LEN,
        p == lzss_params(o, 0), 0 <= i <= last_match_length <= len0, 1 <= last_match_length, done == dn + i, len <= len0, last_match_length - i <= len,
        lzss.opt == o,
        len > 0 || i < last_match_length ==> lzss.tree_inv() && near(lzss.index.tv(), lzss.dictionary.cur(), p.w, 0, p.w - p.la),
        enc_win(p, x, done, len as int, lzss.dictionary.at(), lzss.dictionary.cur()),
        bytes.data() == d, bytes.pos() == o.in_offset + done + len, done + len <= x.len(),
        len < o.lookahead ==> done + len == x.len(),
        i < last_match_length ==> done + len == x.len(),
        lzss.match_length <= o.lookahead,
        /*FN*/ lzss.es(len as int, done) == es_steps(p, x, s1, i as nat),
        i > 0 && len > 0 ==> can_copy(p, x, done, if lzss.match_length < len { lzss.match_length as int } else { len as int }, lzss.match_offset as int),
    decreases last_match_length - i,
@at loop5.begin
    let ghost (b, pos, t0) = (lzss.dictionary.at(), lzss.dictionary.cur(), lzss.index.tv());
    proof { lemma_win_facts(p, x, done, len as int, b, pos); }
@at before "lzss.dictionary.advance()" #1
    let ghost t1 = lzss.index.tv();
    proof {
        lemma_near_step(t0, b, p, pos, t1);
        lemma_win_pass(p, x, done, len as int, b, pos);
    }
@at before "i += 1" #1
    proof {
        reveal(es_step); /*FN*/
        done = done + 1;
        let q = ring_ah(pos, p.w, 1);
        if len > 0 {
            lemma_can_copy(t1, p, x, done, len as int, lzss.dictionary.at(), q, lzss.match_length as int, lzss.match_offset as int);
            lemma_near_ins(t1, lzss.dictionary.at(), p.w, p.w - p.la, q, lzss.index.tv());
        }
    }
@at before "huff.finish"
    proof {
        lemma_coder_bits(true, d1, off1, bits, writer.data(), writer.pos(), huff.bits@);
        lemma_coder_end(true, d1, off1, bits, writer.data(), writer.pos(), huff.bits@);
        let b = pack_msb(bits);
        lemma_es_codes_end(p, x, lzss.es(len as int, done), huff.tree.ht(), bits, all); /*FN*/
        reveal(lzss_encode); /*FN*/
        assert(x.take(done) =~= x);
        assert(lz_end(p, x, b, bits, huff.tree.ht()));
        assert(lz_done(p, x, b));
        assert((hs + b).skip(hs.len() as int) =~= b);
        assert((hs + b).take(hs.len() as int) =~= hs);
        lemma_placed_append(d0, off, hs, d1, b);
        assert(lzhuf_encodes(x, hs + b, o));
    }
@fn lzss_huff::expand
@ret r
@contract
    requires
        lzss_opts_ok(*opt),
        opt.in_offset <= old(compressed_in).data().len(),
    ensures
        /*C10*/ old(compressed_in).data().len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge) && final(expanded_out).data() == old(expanded_out).data())),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> old(compressed_in).data().len() - opt.in_offset > opt.max_file_size,
        /*C10*/ r matches Ok((n, m)) ==> n == old(compressed_in).data().len() - opt.in_offset,
        /*C10*/ r matches Ok((n, m)) ==> (m > 0 && old(expanded_out).data().len() <= opt.out_offset ==> final(expanded_out).data().len() == opt.out_offset + m),
        /*C11*/ r is Ok ==> forall|i: int| 0 <= i < opt.out_offset && i < old(expanded_out).data().len() ==> #[trigger] final(expanded_out).data()[i] == old(expanded_out).data()[i],
        /*C11*/ r matches Ok((n, m)) ==> final(expanded_out).data().len() == old(expanded_out).data().len() || final(expanded_out).data().len() == opt.out_offset + m,
        /*C14*/ r is Ok ==> final(compressed_in).failed() == old(compressed_in).failed() && final(expanded_out).failed() == old(expanded_out).failed(),
        ({
            let d = old(compressed_in).data();
            match r {
                Ok((a, b)) => {
                    let x = body(d, opt.in_offset);
                    &&& a == x.len() && a <= opt.max_file_size
                    &&& lzhuf_decode(x, *opt) matches Some(s)
                        && b == s.len() && b <= MAX_LEN
                        && placed(old(expanded_out).data(), opt.out_offset as int, s, final(expanded_out).data())
                },
                Err(e) => {
                    ||| is_fault(e)
                    ||| is_lib(e, crate::Error::FileTooLarge) && d.len() - opt.in_offset > opt.max_file_size
                            && final(expanded_out).data() == old(expanded_out).data()
                    ||| is_eof(e) && lzhuf_decode(body(d, opt.in_offset), *opt) is None && d.len() - opt.in_offset <= opt.max_file_size
                },
            }
        }),
@at start
    hide(lz_run); hide(ring_ok); hide(lz_copy); hide(lz_win); hide(huf_sym); hide(huf_pos); hide(crate::tools::adaptive_huff::AdaptiveHuffmanTree::inv);
    broadcast use lemma_wr_shape;
    let ghost o = *opt;
    let ghost d = compressed_in.data();
    let ghost d0 = expanded_out.data();
    let ghost off = opt.out_offset as int;
@at before "let mut huff"
    let ghost p = lzss_params(o, max_expanded_size as int);
    let ghost bits0 = unpack_msb(d.skip(reader.pos()));
    let ghost mut out = Seq::<u8>::empty();
    let ghost x = body(d, opt.in_offset);
    proof {
        lemma_rem_start(true, d, reader.pos());
        lemma_placed_nothing(d0, off);
        lemma_init_wf(p.nsym());
        if o.header {
            assert(d.skip(opt.in_offset + 4) =~= x.skip(4));
            assert(d.subrange(opt.in_offset as int, opt.in_offset + 4) =~= x.take(4));
        }
        assert(Some(lz_run(p, ht_init(p.nsym()), bits0, Seq::empty())) == lzhuf_decode(x, o));
    }
@loop 0
    invariant
        *opt == o, lzss_opts_ok(o), start_pos == o.window_size - o.lookahead,
        lzss.dictionary.inv(), lzss.dictionary.cur() == 0, lzss.dictionary.at().len() == o.window_size,
        forall|k: int| 0 <= k < i ==> #[trigger] lzss.dictionary.at()[k] == o.precursor,
        forall|k: int| i <= k < o.window_size ==> #[trigger] lzss.dictionary.at()[k] == 0,
@at loop0.begin
    proof { lemma_ring_mod(i as int, o.window_size as int, 0); }
@at loop0.after
    proof {
        lemma_ring_start(p, lzss.dictionary.at());
        lemma_ring_mod(start_pos as int, o.window_size as int, 0);
        if out.len() >= p.max { lemma_run_end(p, huff.tree.ht(), huff.rest(&reader), out); }
    }
@loop 1
    invariant_except_break
        lz_run(p, huff.tree.ht(), huff.rest(&reader), out) == lz_run(p, ht_init(p.nsym()), bits0, Seq::empty()),
        huff.io_ok(&reader),
        huff.tree.inv(), huff.tree.num_symb == p.nsym(),
        out.len() >= p.max ==> out == lz_run(p, ht_init(p.nsym()), bits0, Seq::empty()),
    invariant
        /*C14*/ reader.failed() == old(compressed_in).failed(),
        reader.end_failed() == (*final(old(compressed_in))).failed(),
        /*C14*/ writer.failed() == old(expanded_out).failed(),
        *opt == o, d == old(compressed_in).data(), d0 == old(expanded_out).data(), off == opt.out_offset, lzss_opts_ok(o),
        p == lzss_params(o, max_expanded_size as int), p.ok(),
        reader.data() == d,
        lzss.dictionary.inv(), ring_ok(p, out, lzss.dictionary.at(), lzss.dictionary.cur()),
        writer.pos() == off + out.len(),
        placed(d0, off, out, writer.data()),
        *final(writer.inner) == *final(old(expanded_out)),
    ensures
        out == lz_run(p, ht_init(p.nsym()), bits0, Seq::empty()),
    decreases (if max_expanded_size > out.len() { max_expanded_size - out.len() } else { 0 }),
@at loop1.begin
    let ghost t0 = huff.tree.ht();
    let ghost r0 = huff.rest(&reader);
    proof { lemma_run_step(p, t0, r0, out); lemma_ring_len(lzss.dictionary); lemma_ring_facts(p, out, lzss.dictionary.at(), lzss.dictionary.cur()); }
@at before "writer.write("
    proof {
        assert([c as u8]@ =~= seq![c as u8]);
        assert(seq![c as u8].take(1) =~= seq![c as u8]);
        lemma_placed_append(d0, off, out, writer.data(), seq![c as u8]);
        assert(out + seq![c as u8] =~= out.push(c as u8));
        lemma_ring_push(p, out, lzss.dictionary.at(), lzss.dictionary.cur(), c as u8);
    }
@at after "lzss.dictionary.advance()"
    proof { out = out.push(c as u8); }
@at before "let strlen"
    let ghost q = -offset - 1;
    let ghost out1 = out;
    proof { lemma_copy_zero(p, out1, q % p.w + 1); }
@loop 2
    invariant
        /*C14*/ reader.failed() == old(compressed_in).failed(),
        reader.end_failed() == (*final(old(compressed_in))).failed(),
        /*C14*/ writer.failed() == old(expanded_out).failed(),
        *opt == o, d == old(compressed_in).data(), d0 == old(expanded_out).data(), off == opt.out_offset, lzss_opts_ok(o),
        p == lzss_params(o, max_expanded_size as int), p.ok(),
        0 <= q < 4096, offset == -(q + 1),
        out == lz_copy(p, out1, q % p.w + 1, _k as nat),
        lzss.dictionary.inv(), ring_ok(p, out, lzss.dictionary.at(), lzss.dictionary.cur()),
        writer.pos() == off + out.len(),
        placed(d0, off, out, writer.data()),
        *final(writer.inner) == *final(old(expanded_out)),
@at loop2.begin
    proof {
        lemma_ring_len(lzss.dictionary);
        lemma_ring_get(p, out, lzss.dictionary.at(), lzss.dictionary.cur(), q);
        let c = lz_win(p, out, q % p.w + 1);
        lemma_copy_next(p, out1, q % p.w + 1, _k as nat);
        lemma_ring_facts(p, out, lzss.dictionary.at(), lzss.dictionary.cur());
        assert([c]@ =~= seq![c]);
        assert(seq![c].take(1) =~= seq![c]);
        lemma_placed_append(d0, off, out, writer.data(), seq![c]);
        assert(out + seq![c] =~= out.push(c));
        lemma_ring_push(p, out, lzss.dictionary.at(), lzss.dictionary.cur(), c);
        lemma_ring_mod(lzss.dictionary.cur(), p.w, 0);
    }
@at loop2.end
    proof { out = out.push(c8); }
@at loop2.after
    proof { lemma_copy_len(p, out1, q % p.w + 1, strlen as nat); }
@at loop1.end
    proof { if out.len() >= p.max { lemma_run_end(p, huff.tree.ht(), huff.rest(&reader), out); } }
@end

@fn lzss_huff::compress_slice
@ret r
@contract
    requires
        lzss_opts_ok(*opt),
        opt.out_offset == 0,
        opt.in_offset <= slice@.len(),
        opt.header ==> opt.max_file_size <= u32::MAX || slice@.len() - opt.in_offset <= u32::MAX,
    ensures
        /*C10*/ slice@.len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> slice@.len() - opt.in_offset > opt.max_file_size,
        match r {
            Ok(v) => lzhuf_encodes(body(slice@, opt.in_offset), v@, *opt) && slice@.len() - opt.in_offset <= opt.max_file_size,
            Err(e) => is_fault(e)
                || is_lib(e, crate::Error::FileTooLarge) && slice@.len() - opt.in_offset > opt.max_file_size,
        },
        /*FN*/ r matches Ok(v) ==> v@ == lzss_encode(body(slice@, opt.in_offset), *opt),
@at end
    proof {
        let s = choose|s: Seq<u8>| #[trigger] lzhuf_encodes(body(slice@, opt.in_offset), s, *opt) && placed(Seq::empty(), 0, s, ans.inner@);
        lemma_placed_all(s, ans.inner@);
        lemma_placed_all(lzss_encode(body(slice@, opt.in_offset), *opt), ans.inner@); /*FN*/
    }

@fn lzss_huff::expand_slice
@ret r
@contract
    requires
        lzss_opts_ok(*opt),
        opt.out_offset == 0,
        opt.in_offset <= slice@.len(),
    ensures
        /*C10*/ slice@.len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> slice@.len() - opt.in_offset > opt.max_file_size,
        match r {
            Ok(v) => lzhuf_decode(body(slice@, opt.in_offset), *opt) == Some(v@) && slice@.len() - opt.in_offset <= opt.max_file_size,
            Err(e) => is_fault(e)
                || is_lib(e, crate::Error::FileTooLarge) && slice@.len() - opt.in_offset > opt.max_file_size
                || is_eof(e) && lzhuf_decode(body(slice@, opt.in_offset), *opt) is None && slice@.len() - opt.in_offset <= opt.max_file_size,
        },
@at end
    proof { lemma_placed_all(lzhuf_decode(body(slice@, opt.in_offset), *opt)->0, ans.inner@); }

@fn lzss_huff::LZSS::delete_node
@ret r
@contract
    requires old(self).tree_inv(), 0 <= offset <= 4096,
    ensures
        /*C09*/ r is Ok,
        final(self).opt == old(self).opt, final(self).dictionary == old(self).dictionary,
        final(self).match_offset == old(self).match_offset, final(self).match_length == old(self).match_length,
        del_post(old(self).index.tv(), old(self).dictionary.at(), (old(self).dictionary.cur() + offset) % (old(self).dictionary.at().len() as int), final(self).index.tv()),
        /*FN*/ final(self).index.tv() == del_fn(old(self).index.tv(), (old(self).dictionary.cur() + offset) % (old(self).dictionary.at().len() as int)),
@at start
        hide(del_t2); hide(tv_cut); hide(tv_drop); hide(tv_link); hide(tv_below); hide(tv_ok);
        let ghost t0 = self.index.tv();
        let ghost b = self.dictionary.at();
        proof { reveal(del_fn); }
@at before "if self.index.is_free"
        proof { lemma_del_start(t0, b, p as int); }
@at before "let (terminus_dad"
                        proof { lemma_del_term(t0, b, p as int, left as int, right as int, terminus as int); reveal(del_t2); }
@at before "self.index.set_cursor(p)?" #1
        proof { lemma_del_done(t0, b, p as int, replacement as int, self.index.tv()); }
@fn lzss_huff::LZSS::insert_node
@ret r
@contract
    requires
        old(self).tree_inv(), 1 <= old(self).opt.lookahead <= 4096,
        !gn_reg(old(self).index.tv().nodes[old(self).dictionary.cur()]),
    ensures
        /*C09*/ r is Ok,
        final(self).opt == old(self).opt, final(self).dictionary == old(self).dictionary,
        ins_post(old(self).index.tv(), old(self).dictionary.at(), old(self).dictionary.cur(), final(self).index.tv()),
        final(self).match_length <= old(self).opt.lookahead, final(self).match_length == 0 || old(self).opt.threshold < final(self).match_length,
        match_found(old(self).index.tv(), old(self).dictionary.at(), old(self).dictionary.cur(), final(self).match_length as int, final(self).match_offset as int),
        /*FN*/ ins_fn(old(self).index.tv(), old(self).dictionary.at(), old(self).dictionary.cur(), old(self).opt.lookahead as int, old(self).opt.threshold as int, old(self).match_offset as int)
        /*FN*/     == (IR { tv: final(self).index.tv(), ml: final(self).match_length as int, mo: final(self).match_offset as int }),
@at start
        hide(tv_ok); hide(tv_inv); hide(tv_col); hide(tv_rk); hide(tv_spawn); hide(tv_change); hide(same_at);
        let ghost t0 = self.index.tv();
        let ghost b = self.dictionary.at();
        let ghost rk = choose|rk: Seq<int>| tv_rk(t0, rk);
        proof { reveal(ins_fn); }
@at before "self.match_length = 0"
        proof {
            lemma_ring_len(self.dictionary);
            lemma_ring_mod(self.dictionary.cur(), b.len() as int, 0);
            assert(self.dictionary.cur() == pos);
            reveal(tv_ok); reveal(tv_inv);
            lemma_ins_start(t0, b, pos as int);
            lemma_match_none(t0, b, pos as int, self.match_offset as int);
            reveal(tv_ok); reveal(tv_inv);
            assert(same_at(b, pos as int, pos as int, 0)) by { reveal(same_at); }
        }
@at before "self.index.spawn_root"
                proof { lemma_ins_root(t0, b, symbol as int, pos as int); }
@loop 0
            invariant
                self.opt == old(self).opt, self.dictionary == old(self).dictionary, self.index.tv() == t0, self.index.at() == Some(curs),
                self.dictionary.inv(), b == self.dictionary.at(), t0 == old(self).index.tv(), t0.nodes.len() == b.len(), b.len() <= 4096,
                tv_rk(t0, rk), tv_ok(t0), tv_inv(t0, b), tv_col(t0, b), curs < b.len(), gn_reg(t0.nodes[curs as int]), b[curs as int] == symbol,
                pos == self.dictionary.cur(), pos < b.len(), !gn_reg(t0.nodes[pos as int]), gn_leaf(t0.nodes[pos as int]), b[pos as int] == symbol,
                1 <= self.opt.lookahead <= 4096,
                self.match_length <= self.opt.lookahead, self.match_length == 0 || self.opt.threshold < self.match_length,
                match_found(t0, b, pos as int, self.match_length as int, self.match_offset as int),
                /*FN*/ ins_fn(t0, b, pos as int, self.opt.lookahead as int, self.opt.threshold as int, old(self).match_offset as int)
                /*FN*/     == ins_walk(t0, b, pos as int, self.opt.lookahead as int, self.opt.threshold as int, self.match_length as int, self.match_offset as int, curs as int),
            decreases rk[curs as int],
@at loop0.begin
            proof {
                assert(same_at(b, pos as int, curs as int, 0)) by { reveal(same_at); lemma_ring_mod(pos as int, b.len() as int, 0); lemma_ring_mod(curs as int, b.len() as int, 0); }
                lemma_ins_down(t0, rk, b, curs as int, 0);
                lemma_ins_down(t0, rk, b, curs as int, 1);
            }
@loop 1
                invariant_except_break
                    /*FN*/ cmp == 0,
                invariant
                    self.opt == old(self).opt, self.dictionary == old(self).dictionary, self.dictionary.inv(), b == self.dictionary.at(),
                    1 <= i <= self.opt.lookahead, self.opt.lookahead <= 4096, curs < b.len(), b.len() <= 4096, pos == self.dictionary.cur(),
                    same_run(b, pos as int, curs as int, i as int),
                    /*FN*/ run_to(b, pos as int, curs as int, self.opt.lookahead as int, i as int) == run_to(b, pos as int, curs as int, self.opt.lookahead as int, 1),
                ensures
                    /*FN*/ i == run_to(b, pos as int, curs as int, self.opt.lookahead as int, 1),
                    /*FN*/ cmp < 0 <==> run_side(b, pos as int, curs as int, self.opt.lookahead as int) == 0,
                decreases self.opt.lookahead - i,
@at before "if cmp != 0"
                proof { if cmp == 0 { assert(same_at(b, pos as int, curs as int, i as int)) by { reveal(same_at); } } }
@at before "if i > self.opt.threshold"
            proof { lemma_match_take(t0, b, pos as int, i as int, curs as int); }
@at before "self.index.change_value"
                        proof { lemma_ins_change(t0, b, curs as int, pos as int); }
@at before "self.index.spawn(pos"
                    proof { lemma_ins_leaf(t0, b, curs as int, gside(side), pos as int); reveal(tv_spawn); }
@module lzss_huff
/// C02: with the length header, what was compressed expands to the same bytes
pub fn client_lossless(x: &[u8], o: &Options)
    requires lzss_opts_ok(*o), o.header, o.in_offset == 0, o.out_offset == 0, x@.len() <= u32::MAX
{
    assert(body(x@, 0) =~= x@);
    match compress_slice(x, o) {
        Ok(v) => {
            assert(body(v@, 0) =~= v@);
            assert(lzhuf_decode(v@, *o) == Some(x@)) by { lemma_lzhuf_lossless(x@, v@, *o); }
            match expand_slice(v.as_slice(), o) {
                Ok(y) => { assert(y@ == x@); }
                Err(e) => { assert(is_fault(e) || v@.len() > o.max_file_size); }
            }
        }
        Err(e) => { assert(is_fault(e) || x@.len() > o.max_file_size); }
    }
}
/// C02: and on streams that work nothing else can happen
pub fn client_lossless_ok(x: &[u8], o: &Options)
    requires lzss_opts_ok(*o), o.header, o.in_offset == 0, o.out_offset == 0, x@.len() <= u32::MAX, x@.len() <= o.max_file_size, io_works()
{
    assert(body(x@, 0) =~= x@);
    let r = compress_slice(x, o);
    assert(r is Ok);
    let v = match r { Ok(v) => v, Err(_) => return };
    assert(body(v@, 0) =~= v@);
    if v.len() as u64 <= o.max_file_size {
        proof { lemma_lzhuf_lossless(x@, v@, *o); }
        let q = expand_slice(v.as_slice(), o);
        assert(q is Ok && q->Ok_0@ == x@);
    }
}
/// C05: without it at most 7 bytes follow
pub fn client_tail(x: &[u8], o: &Options)
    requires lzss_opts_ok(*o), !o.header, o.in_offset == 0, o.out_offset == 0, x@.len() <= u32::MAX
{
    assert(body(x@, 0) =~= x@);
    match compress_slice(x, o) {
        Ok(v) => {
            assert(body(v@, 0) =~= v@);
            proof { lemma_lzhuf_tail(x@, v@, *o); }
            match expand_slice(v.as_slice(), o) {
                Ok(y) => {
                    assert(x@.len() <= y@.len() <= x@.len() + 7 && y@.take(x@.len() as int) == x@);
                    if x.len() == 0 { proof { assert(v@ =~= Seq::<u8>::empty()); lemma_lzhuf_nothing(*o); } assert(v@.len() == 0 && y@.len() == 0); }
                }
                Err(e) => { assert(is_fault(e) || v@.len() > o.max_file_size); }
            }
        }
        Err(e) => { assert(is_fault(e) || x@.len() > o.max_file_size); }
    }
}
pub fn client_tail_ok(x: &[u8], o: &Options)
    requires lzss_opts_ok(*o), !o.header, o.in_offset == 0, o.out_offset == 0, x@.len() <= u32::MAX, x@.len() <= o.max_file_size, io_works()
{
    assert(body(x@, 0) =~= x@);
    let r = compress_slice(x, o);
    assert(r is Ok);
    let v = match r { Ok(v) => v, Err(_) => return };
    assert(body(v@, 0) =~= v@);
    if v.len() as u64 <= o.max_file_size {
        proof { lemma_lzhuf_tail(x@, v@, *o); }
        let q = expand_slice(v.as_slice(), o);
        assert(q is Ok);
        let y = match q { Ok(y) => y, Err(_) => return };
        assert(x@.len() <= y@.len() <= x@.len() + 7 && y@.take(x@.len() as int) == x@);
        if x.len() == 0 { proof { assert(v@ =~= Seq::<u8>::empty()); lemma_lzhuf_nothing(*o); } assert(v@.len() == 0 && y@.len() == 0); }
    }
}
/// a stream that was written and is now read
pub trait Reopen<S: Read>: Write {
    fn reopen(&self) -> (r: S) ensures r.data() == Write::data(self);
}
/// C02, C05: the same for streams, anywhere in them, into a target that ends before the output offset
pub fn client_lossless_streams<R: Read + Seek, S: Read + Seek, W: Write + Seek + Reopen<S>, T: Write + Seek>(a: &mut R, b: &mut W, o: &Options, e: &mut T, p: &Options)
    requires
        lzss_opts_ok(*o), lzss_opts_ok(*p), same_lzss_format(*o, *p), p.in_offset == o.out_offset,
        o.in_offset <= old(a).data().len(), old(a).data().len() - o.in_offset <= u32::MAX,
        old(b).data().len() <= o.out_offset,
{
    let ghost x = body(a.data(), o.in_offset);
    let ghost b0 = b.data();
    let ghost e0 = e.data();
    match compress(a, b, o) {
        Ok((n, m)) => {
            if m > 0 {
                let ghost s = body(b.data(), o.out_offset);
                let mut c = b.reopen();
                proof {
                    let s1 = choose|s: Seq<u8>| #[trigger] lzhuf_encodes(x, s, *o) && m == s.len() && placed(b0, o.out_offset as int, s, b.data());
                    lemma_placed_body(b0, o.out_offset, s1, b.data());
                    assert(s == s1);
                    lemma_placed_len(b0, o.out_offset, s1, b.data());
                    lemma_lzss_format(x, s, *o, *p);
                    if o.header { lemma_lzhuf_lossless(x, s, *p); } else { lemma_lzhuf_tail(x, s, *p); }
                }
                match expand(&mut c, e, p) {
                    Ok((k, l)) => {
                        assert(o.header ==> l == n && e.data() == wr(e0, p.out_offset as int, x));
                        assert(!o.header ==> exists|y: Seq<u8>| x.len() <= y.len() <= x.len() + 7 && y.take(x.len() as int) == x && l == y.len() && #[trigger] placed(e0, p.out_offset as int, y, e.data()));
                    }
                    Err(err) => { assert(is_fault(err) || m > p.max_file_size); }
                }
            }
        }
        Err(err) => { assert(is_fault(err) || x.len() > o.max_file_size); }
    }
}
pub proof fn lemma_placed_len(d0: Seq<u8>, off: u64, s: Seq<u8>, d: Seq<u8>)
    requires placed(d0, off as int, s, d), s.len() > 0
    ensures d.len() >= off + s.len()
{
    reveal(wr);
}
/// the options agree on the format
pub open spec fn same_lzss_format(o: Options, p: Options) -> bool {
    o.header == p.header && o.window_size == p.window_size && o.lookahead == p.lookahead && o.threshold == p.threshold && o.precursor == p.precursor
}
pub proof fn lemma_lzss_format(x: Seq<u8>, s: Seq<u8>, o: Options, p: Options)
    requires same_lzss_format(o, p)
    ensures lzhuf_encodes(x, s, o) == lzhuf_encodes(x, s, p), lzhuf_decode(s, o) == lzhuf_decode(s, p)
{
    assert(forall|k: int| lzss_params(o, k) == #[trigger] lzss_params(p, k));
}
/// C09: every input within the limits is accepted, on streams that work
pub fn client_accepts<R: Read + Seek, W: Write + Seek>(a: &mut R, b: &mut W, o: &Options)
    requires
        lzss_opts_ok(*o), o.in_offset <= old(a).data().len(), old(a).data().len() - o.in_offset <= o.max_file_size,
        o.header ==> o.max_file_size <= u32::MAX || old(a).data().len() - o.in_offset <= u32::MAX, io_works(),
{
    let r = compress(a, b, o);
    assert(r is Ok);
}
/// C11: two runs on the same data, anywhere in any streams, give the same bytes
pub fn client_same_compress<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, o: &Options, c: &mut Q, e: &mut V, p: &Options)
    requires
        lzss_opts_ok(*o), lzss_opts_ok(*p), same_lzss_format(*o, *p), io_works(),
        o.in_offset <= old(a).data().len(), p.in_offset <= old(c).data().len(), body(old(a).data(), o.in_offset) == body(old(c).data(), p.in_offset),
        old(a).data().len() - o.in_offset <= o.max_file_size, old(c).data().len() - p.in_offset <= p.max_file_size,
        o.header ==> o.max_file_size <= u32::MAX || old(a).data().len() - o.in_offset <= u32::MAX,
{
    let ghost x = body(a.data(), o.in_offset);
    let ghost (b0, e0) = (b.data(), e.data());
    proof { lemma_lzss_encode_format(x, *o, *p); }
    let r = compress(a, b, o);
    let q = compress(c, e, p);
    assert(r is Ok == q is Ok); /*FN*/
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m == l); /*FN*/
        if m > 0 {
            proof {
                lemma_placed_range(b0, o.out_offset as int, lzss_encode(x, *o), b.data()); /*FN*/
                lemma_placed_range(e0, p.out_offset as int, lzss_encode(x, *o), e.data()); /*FN*/
            }
            assert(b.data().subrange(o.out_offset as int, o.out_offset + m) == e.data().subrange(p.out_offset as int, p.out_offset + m)); /*FN*/
        }
    }
}
/// C11: two runs on the same data, anywhere in any streams, give the same bytes
pub fn client_same_expand<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, o: &Options, c: &mut Q, e: &mut V, p: &Options)
    requires
        lzss_opts_ok(*o), lzss_opts_ok(*p), same_lzss_format(*o, *p), io_works(),
        o.in_offset <= old(a).data().len(), p.in_offset <= old(c).data().len(), body(old(a).data(), o.in_offset) == body(old(c).data(), p.in_offset),
        old(a).data().len() - o.in_offset <= o.max_file_size, old(c).data().len() - p.in_offset <= p.max_file_size,
{
    let ghost x = body(a.data(), o.in_offset);
    let ghost (b0, e0) = (b.data(), e.data());
    proof { lemma_lzss_format(x, x, *o, *p); }
    let r = expand(a, b, o);
    let q = expand(c, e, p);
    assert(r is Ok == q is Ok);
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m == l);
        if m > 0 {
            proof {
                lemma_placed_range(b0, o.out_offset as int, lzhuf_decode(x, *o)->0, b.data());
                lemma_placed_range(e0, p.out_offset as int, lzhuf_decode(x, *o)->0, e.data());
            }
            assert(b.data().subrange(o.out_offset as int, o.out_offset + m) == e.data().subrange(p.out_offset as int, p.out_offset + m));
        }
    }
}
/// the options that are offered are such
pub fn client_options()
{
    assert(lzss_opts_ok(STD_OPTIONS) && std_opts(STD_OPTIONS));
    assert(lzss_opts_ok(crate::td0::TD_V2_OPTIONS) && !crate::td0::TD_V2_OPTIONS.header);
}
@end
