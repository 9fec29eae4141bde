@fn lzw::compress
@ret r
@contract
    requires
        lzw_compress_ok(*opt),
    ensures
        /*C09*/ opt.in_offset <= old(expanded_in).data().len() && old(expanded_in).data().len() - opt.in_offset <= opt.max_file_size ==> (r matches Err(e) ==> is_fault(e)),
        /*C10*/ old(expanded_in).data().len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge) && final(compressed_out).data() == old(compressed_out).data())),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> old(expanded_in).data().len() - opt.in_offset > opt.max_file_size,
        /*C10*/ r matches Ok((n, m)) ==> n == old(expanded_in).data().len() - opt.in_offset,
        /*C10*/ r matches Ok((n, m)) ==> (m > 0 && old(compressed_out).data().len() <= opt.out_offset ==> final(compressed_out).data().len() == opt.out_offset + m),
        /*C11*/ r is Ok ==> forall|i: int| 0 <= i < opt.out_offset && i < old(compressed_out).data().len() ==> #[trigger] final(compressed_out).data()[i] == old(compressed_out).data()[i],
        /*C11*/ r matches Ok((n, m)) ==> final(compressed_out).data().len() == old(compressed_out).data().len() || final(compressed_out).data().len() == opt.out_offset + m,
        /*C14*/ r is Ok ==> final(expanded_in).failed() == old(expanded_in).failed() && final(compressed_out).failed() == old(compressed_out).failed(),
        ({
            let d = old(expanded_in).data();
            match r {
                Ok((a, b)) => {
                    let x = body(d, opt.in_offset);
                    let s = lzw_encode(x, *opt);
                    &&& opt.in_offset <= d.len()
                    &&& a == x.len() && a <= opt.max_file_size
                    &&& b == s.len() && b <= MAX_LEN
                    &&& placed(old(compressed_out).data(), opt.out_offset as int, s, final(compressed_out).data())
                },
                Err(e) => {
                    ||| is_fault(e)
                    ||| is_lib(e, crate::Error::FileTooLarge) && d.len() - opt.in_offset > opt.max_file_size
                            && final(compressed_out).data() == old(compressed_out).data()
                    ||| is_lib(e, crate::Error::FileFormatMismatch) && opt.in_offset > d.len()
                            && final(compressed_out).data() == old(compressed_out).data()
                },
            }
        }),
@at start
    hide(enc_bits); hide(enc_chunk); hide(code_bits); hide(pow2); hide(trie); hide(trie_add); hide(dict_enc);
    let ghost o = *opt;
    let ghost msb = is_msb(o);
    let ghost d = expanded_in.data();
    let ghost d0 = compressed_out.data();
    let ghost off = opt.out_offset as int;
@at before "let mut sym_in"
    let ghost x = body(d, opt.in_offset);
    let ghost mut done = Seq::<bool>::empty();
    let ghost mut i0: int = 0;
    proof {
        lemma_coder_start(msb, d0, off);
        lemma_enc_rest_start(o, x);
        lemma_pow2_mono(9, o.max_code_width as nat);
        lemma_pow2_mono(o.max_code_width as nat, 16);
        lemma_pow2_values();
    }
@loop 0
    invariant
        /*C14*/ reader.failed() == old(expanded_in).failed(),
        reader.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        *opt == o, msb == is_msb(o), lzw_compress_ok(o), off == opt.out_offset, d == old(expanded_in).data(), d0 == old(compressed_out).data(),
        opt.in_offset <= d.len() <= MAX_LEN, x == body(d, opt.in_offset), expanded_length == x.len(), expanded_length <= opt.max_file_size,
        reader.data() == d,
        coder_at(msb, d0, off, done, writer.data(), write_offset_header as int, coder.bits@),
        coder.ptr == 0, coder.ord == opt.ord, old_coder_state.ord == opt.ord,
        o.header_bits > 0 ==> done.len() % 8 == 0 && old_coder_state.bits@.len() == 0 && old_coder_state.ptr == 0 && old_coder_state.count < usize::MAX,
        coder.count < usize::MAX,
        0 <= i0 <= x.len(),
        read_chunk_offset == opt.in_offset + i0,
        write_offset_header <= MAX_LEN,
        enc_rest(o, x, done, i0),
        *final(writer.inner) == *final(old(compressed_out)),
    decreases x.len() - i0,
@at before "if opt.header_bits > 0"
    proof {
        lemma_trie_new(lzw.dictionary@);
        lemma_enc_rest_chunk(o, x, done, i0);
        lemma_enc_at_start(o, x, i0);
        lemma_coder_bits(msb, d0, off, done, writer.data(), writer.pos(), coder.bits@);
        lemma_coder_put(msb, d0, off, done, writer.data(), writer.pos(), coder.bits@, bits_of(msb, 0, o.header_bits as nat));
        lemma_bits_len(msb, 0, o.header_bits as nat);
        if !chunk_of(o, x, i0).2 { lemma_chunk_aligned(o, x, i0); }
    }
@at before "coder.count = 0"
    let ghost hb: Seq<bool> = if o.header_bits > 0 { bits_of(msb, 0, o.header_bits as nat) } else { Seq::empty() };
    let ghost mut codes = Seq::<int>::empty();
    let ghost mut i: int = i0;
    let ghost ic = i0;
    proof {
        lemma_code_bits_len(o, codes);
        assert(done + hb + code_bits(o, codes) =~= done + hb);
        if o.header_bits == 0 { assert(done + hb =~= done); }
    }
@loop 1
    invariant_except_break
        hb.len() == o.header_bits,
        o.header_bits > 0 ==> done.len() % 8 == 0 && old_coder_state.bits@.len() == 0 && old_coder_state.ptr == 0 && old_coder_state.count < usize::MAX,
        old_coder_state.ord == opt.ord,
        write_offset_header == off + done.len() / 8, write_offset_header <= MAX_LEN,
        0 <= i0 <= i <= x.len(), i0 < x.len() ==> i < x.len(),
        ({
            let (cs, j, e) = chunk_of(o, x, i0);
            let b = done + lzw_header(o, cs.len() as int) + code_bits(o, cs);
            &&& if e { enc_bits(o, x, 0) == b } else { i0 < j < x.len() && enc_rest(o, x, b, j) }
            &&& !e ==> (o.header_bits > 0 ==> code_bits(o, cs).len() % 8 == 0)
        }),
        coder_at(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@),
        coder.ptr == 0, coder.ord == opt.ord,
        coder.count == codes.len(), codes.len() < o.chunk_size, codes.len() <= i - i0,
        reader.data() == d, reader.pos() == opt.in_offset + i,
        lzw.opt == o, dict_enc(lzw.dictionary@), cur_of(lzw.curr_code) <= lzw_max(o),
        enc_at(o, x, i0, codes, EncSt { i: i, t: trie(lzw.dictionary@), cur: cur_of(lzw.curr_code) }),
        i0 == ic,
    invariant
        /*C14*/ reader.failed() == old(expanded_in).failed(),
        reader.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        *opt == o, msb == is_msb(o), lzw_compress_ok(o), off == opt.out_offset, d == old(expanded_in).data(), d0 == old(compressed_out).data(),
        opt.in_offset <= d.len() <= MAX_LEN, x == body(d, opt.in_offset), expanded_length == x.len(), expanded_length <= opt.max_file_size,
        *final(writer.inner) == *final(old(compressed_out)),
    ensures
        reader.data() == d,
        coder_at(msb, d0, off, done, writer.data(), write_offset_header as int, coder.bits@),
        coder.ptr == 0, coder.ord == opt.ord, old_coder_state.ord == opt.ord,
        o.header_bits > 0 ==> done.len() % 8 == 0 && old_coder_state.bits@.len() == 0 && old_coder_state.ptr == 0 && old_coder_state.count < usize::MAX,
        coder.count < usize::MAX,
        ic < i0 <= x.len(),
        read_chunk_offset == opt.in_offset + i0,
        write_offset_header <= MAX_LEN,
        enc_rest(o, x, done, i0),
    decreases x.len() - i,
@at loop1.begin
    let ghost dict0 = lzw.dictionary@;
    let ghost t0 = trie(dict0);
    let ghost cc0 = lzw.curr_code;
    let ghost st0 = EncSt { i: i, t: t0, cur: cur_of(cc0) };
@loop 2
    invariant_except_break
        lzw.dictionary@ == dict0, lzw.curr_code == cc0,
        i <= reader.pos() - opt.in_offset <= x.len(),
        match match_code(dict0, lzw.curr_match) {
            None => reader.pos() == opt.in_offset + i,
            Some(c) => i < reader.pos() - opt.in_offset && longest(t0, x, i + 1, x[i] as int) == longest(t0, x, reader.pos() - opt.in_offset, c),
        },
    invariant
        /*C14*/ reader.failed() == old(expanded_in).failed(),
        reader.end_failed() == (*final(old(expanded_in))).failed(),
        /*C14*/ writer.failed() == old(compressed_out).failed(),
        *opt == o, msb == is_msb(o), lzw_compress_ok(o), off == opt.out_offset, d == old(expanded_in).data(), d0 == old(compressed_out).data(),
        opt.in_offset <= d.len() <= MAX_LEN, x == body(d, opt.in_offset), expanded_length == x.len(), expanded_length <= opt.max_file_size,
        hb.len() == o.header_bits,
        o.header_bits > 0 ==> done.len() % 8 == 0 && old_coder_state.bits@.len() == 0 && old_coder_state.ptr == 0 && old_coder_state.count < usize::MAX,
        old_coder_state.ord == opt.ord,
        write_offset_header == off + done.len() / 8, write_offset_header <= MAX_LEN,
        0 <= i0 <= i <= x.len(), i0 < x.len() ==> i < x.len(),
        ({
            let (cs, j, e) = chunk_of(o, x, i0);
            let b = done + lzw_header(o, cs.len() as int) + code_bits(o, cs);
            &&& if e { enc_bits(o, x, 0) == b } else { i0 < j < x.len() && enc_rest(o, x, b, j) }
            &&& !e ==> (o.header_bits > 0 ==> code_bits(o, cs).len() % 8 == 0)
        }),
        t0 == trie(dict0), st0 == (EncSt { i: i, t: t0, cur: cur_of(cc0) }),
        codes.len() < o.chunk_size, codes.len() <= i - i0,
        enc_at(o, x, i0, codes, st0),
        reader.data() == d,
        match_ok(lzw.dictionary@, lzw.curr_match),
        lzw.opt == o, dict_enc(lzw.dictionary@), cur_of(lzw.curr_code) <= lzw_max(o),
        coder_at(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@),
        coder.ptr == 0, coder.ord == opt.ord, coder.count == codes.len(),
        *final(writer.inner) == *final(old(compressed_out)),
    ensures
        lzw.curr_match is Some,
        i < reader.pos() - opt.in_offset - 1 < x.len(),
        longest(t0, x, i + 1, x[i] as int) == (reader.pos() - opt.in_offset - 1, match_code(lzw.dictionary@, lzw.curr_match)->0),
        trie(lzw.dictionary@) == trie_add(o, t0, cur_of(cc0), match_code(lzw.dictionary@, lzw.curr_match)->0, x[reader.pos() - opt.in_offset - 1]),
        cur_of(lzw.curr_code) == adv_cur(o, cur_of(cc0)),
    decreases x.len() + opt.in_offset - reader.pos(),
@at loop2.begin
    let ghost p0 = reader.pos() - opt.in_offset;
    let ghost m0 = match_code(dict0, lzw.curr_match);
    proof {
        if p0 < x.len() { assert(d.subrange(reader.pos(), reader.pos() + 1) =~= seq![x[p0]]); }
    }
@at before "if let Some(curr) = &lzw.curr_match"
    proof {
        lemma_coder_bits(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@);
        if m0 is Some {
            lemma_enc_at_match(o, x, i0, codes, st0, x.len() as int, m0->0);
            lemma_coder_code(o, d0, off, done + hb, codes, writer.data(), writer.pos(), coder.bits@, m0->0);
        } else {
            lemma_enc_at_end(o, x, i0, codes, st0);
        }
    }
@at before "if let Some(code) = opt.stop_code"
    proof {
        if m0 is Some { codes = codes.push(m0->0); }
        assert(chunk_of(o, x, i0).0 == codes + stop_seq(o));
        lemma_coder_bits(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@);
        if o.stop_code is Some { lemma_coder_code(o, d0, off, done + hb, codes, writer.data(), writer.pos(), coder.bits@, o.stop_code->0 as int); }
    }
@at before "let end ="
    proof {
        if o.stop_code is Some { assert(codes + stop_seq(o) =~= codes.push(o.stop_code->0 as int)); codes = codes.push(o.stop_code->0 as int); }
        else { assert(codes + stop_seq(o) =~= codes); }
        assert(coder.count == codes.len());
        lemma_coder_end(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@);
        assert(coder.count * opt.max_code_width <= 16 * (MAX_LEN + 2)) by(nonlinear_arith) requires 0 <= coder.count <= MAX_LEN + 2, 0 <= opt.max_code_width <= 16;
        assert(opt.max_code_width * coder.count == coder.count * opt.max_code_width) by(nonlinear_arith);
        if o.header_bits > 0 {
            lemma_chunk_header(o, d0, off, done, hb, codes, writer.data(), writer.pos(), coder.bits@);
            assert(old_coder_state.bits@ + lzw_header(o, codes.len() as int) =~= lzw_header(o, codes.len() as int));
        }
    }
    let ghost pe = writer.pos();
@at before "writer.seek(SeekFrom::Start(end))"
    proof {
        assert(coder_at(msb, d0, off, enc_bits(o, x, 0), writer.data(), pe, coder.bits@));
        lemma_coder_end(msb, d0, off, enc_bits(o, x, 0), writer.data(), pe, coder.bits@);
        lemma_wr_shape(d0, off, lzw_encode(x, o));
    }
@at before "coder.put_code(opt.max_code_width,curr.code"
    let ghost j = reader.pos() - opt.in_offset - 1;
    let ghost cm = curr.code as int;
    proof {
        lemma_coder_bits(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@);
        lemma_enc_at_match(o, x, i0, codes, st0, j, cm);
        lemma_coder_code(o, d0, off, done + hb, codes, writer.data(), writer.pos(), coder.bits@, cm);
    }
@at after "coder.put_code(opt.max_code_width,curr.code"
    proof { codes = codes.push(cm); }
@at before "if let Some(code) = opt.clear_code"
    proof {
        lemma_coder_bits(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@);
        if o.clear_code is Some { lemma_coder_code(o, d0, off, done + hb, codes, writer.data(), writer.pos(), coder.bits@, o.clear_code->0 as int); }
    }
@at before "let save_offset"
    proof {
        if o.clear_code is Some { assert(codes + clear_seq(o) =~= codes.push(o.clear_code->0 as int)); codes = codes.push(o.clear_code->0 as int); }
        else { assert(codes + clear_seq(o) =~= codes); }
        assert(chunk_of(o, x, i0) == (codes, j, false));
        assert(coder.count == codes.len());
        lemma_coder_end(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@);
        lemma_coder_bits(msb, d0, off, done + hb + code_bits(o, codes), writer.data(), writer.pos(), coder.bits@);
        assert(coder.count * opt.max_code_width <= 16 * (MAX_LEN + 2)) by(nonlinear_arith) requires 0 <= coder.count <= MAX_LEN + 2, 0 <= opt.max_code_width <= 16;
        assert(opt.max_code_width * coder.count == coder.count * opt.max_code_width) by(nonlinear_arith);
        if o.header_bits > 0 {
            lemma_chunk_header(o, d0, off, done, hb, codes, writer.data(), writer.pos(), coder.bits@);
            assert(old_coder_state.bits@ + lzw_header(o, codes.len() as int) =~= lzw_header(o, codes.len() as int));
        }
    }
@at after "read_chunk_offset = reader"
    proof {
        done = done + lzw_header(o, codes.len() as int) + code_bits(o, codes);
        i0 = j;
    }
@at loop1.end
    proof { i = j; }

@fn lzw::expand
@ret r
@contract
    requires
        lzw_opts_ok(*opt),
    ensures
        /*C10*/ old(compressed_in).data().len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge) && final(expanded_out).data() == old(expanded_out).data())),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> old(compressed_in).data().len() - opt.in_offset > opt.max_file_size,
        /*C10*/ r matches Ok((n, m)) ==> n == old(compressed_in).data().len() - opt.in_offset,
        /*C10*/ r matches Ok((n, m)) ==> (m > 0 && old(expanded_out).data().len() <= opt.out_offset ==> final(expanded_out).data().len() == opt.out_offset + m),
        /*C11*/ r is Ok ==> forall|i: int| 0 <= i < opt.out_offset && i < old(expanded_out).data().len() ==> #[trigger] final(expanded_out).data()[i] == old(expanded_out).data()[i],
        /*C11*/ r matches Ok((n, m)) ==> final(expanded_out).data().len() == old(expanded_out).data().len() || final(expanded_out).data().len() == opt.out_offset + m,
        /*C14*/ r is Ok ==> final(compressed_in).failed() == old(compressed_in).failed() && final(expanded_out).failed() == old(expanded_out).failed(),
        ({
            let d = old(compressed_in).data();
            match r {
                Ok((a, b)) => {
                    let x = body(d, opt.in_offset);
                    &&& opt.in_offset <= d.len()
                    &&& a == x.len() && a <= opt.max_file_size
                    &&& lzw_decode(x, *opt) matches Some(s)
                        && b == s.len() && b <= MAX_LEN
                        && placed(old(expanded_out).data(), opt.out_offset as int, s, final(expanded_out).data())
                },
                Err(e) => {
                    ||| is_fault(e)
                    ||| is_lib(e, crate::Error::FileTooLarge) && d.len() - opt.in_offset > opt.max_file_size
                            && final(expanded_out).data() == old(expanded_out).data()
                    ||| is_lib(e, crate::Error::FileFormatMismatch) && opt.in_offset > d.len()
                            && final(expanded_out).data() == old(expanded_out).data()
                    ||| is_lib(e, crate::Error::FileFormatMismatch) && opt.in_offset <= d.len() && d.len() - opt.in_offset <= opt.max_file_size
                            && lzw_decode(body(d, opt.in_offset), *opt) is None
                },
            }
        }),
@at start
    broadcast use lemma_wr_shape;
    let ghost o = *opt;
    let ghost msb = is_msb(o);
    let ghost d = compressed_in.data();
    let ghost d0 = expanded_out.data();
    let ghost off = opt.out_offset as int;
@at before "let mut end_of_data"
    let ghost x = body(d, opt.in_offset);
    let ghost tot = unpack(msb, x);
    let ghost mut out = Seq::<u8>::empty();
    proof {
        lemma_rem_start(msb, d, opt.in_offset as int);
        lemma_placed_nothing(d0, off);
        lemma_dec_rest_start(o, tot);
        lemma_pow2_values();
    }
@loop 0
    invariant_except_break
        !end_of_data,
        reader.data() == d,
        0 <= reader.pos() <= d.len(),
        decoder.ptr <= decoder.bits@.len() <= 520,
        decoder.ord == opt.ord,
        decoder.count <= tot.len() - rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int).len(),
        dec_rest(o, tot, out, rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int)),
    invariant
        /*C14*/ reader.failed() == old(compressed_in).failed(),
        reader.end_failed() == (*final(old(compressed_in))).failed(),
        /*C14*/ writer.failed() == old(expanded_out).failed(),
        *opt == o, d == old(compressed_in).data(), lzw_opts_ok(o), msb == is_msb(o), off == opt.out_offset,
        opt.in_offset <= d.len() <= MAX_LEN, x == body(d, opt.in_offset), tot == unpack(msb, x),
        tot.len() == 8 * x.len(),
        compressed_size == x.len(), x.len() <= o.max_file_size,
        writer.pos() == off + out.len(),
        placed(d0, off, out, writer.data()),
        *final(writer.inner) == *final(old(expanded_out)),
    ensures
        dec_all(o, tot) == Some(out),
    decreases rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int).len(),
@at loop0.begin
    let ghost r0 = rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int);
    proof {
        lemma_pow2_mono(o.header_bits as nat, 32);
        lemma_pow2_values();
        assert forall|c: int| 0 <= c < 0x1_0000_0000 implies 0 <= #[trigger] (opt.header_divisor * c) <= 0x1_0000_0000_0000 by {
            assert(0 <= opt.header_divisor * c <= 0x1_0000_0000_0000) by(nonlinear_arith) requires 1 <= opt.header_divisor <= 0x10000, 0 <= c < 0x1_0000_0000;
        }
        assert forall|c: int| #[trigger] (c * opt.header_divisor) == opt.header_divisor * c by { assert(c * opt.header_divisor == opt.header_divisor * c) by(nonlinear_arith); }
        if o.header_bits > 0 && r0.len() < o.header_bits { lemma_dec_rest_end(o, tot, out, r0); }
        if r0.len() >= o.header_bits { lemma_dec_rest_chunk(o, tot, out, r0); }
    }
@at before "lzw.curr_code = None"
    let ghost r1 = rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int);
    let ghost lim: Option<int> = if opt.header_bits > 0 { Some(chunk_bits as int) } else { None };
    let ghost mut zc = Seq::<u8>::empty();
    proof {
        lemma_trie_new(lzw.dictionary@);
        assert(r0.skip(0) =~= r0);
        assert(r1 == r0.skip(opt.header_bits as int));
        assert(lim == chunk_lim(o, r0));
        lemma_dec_at_start(o, r1, lim);
        lemma_dec_at_end(o, r1, lim, zc, DecSt { b: r1, s: lzw_roots(), cur: -1, prev: None, bc: 0 });
        assert(out + zc =~= out);
    }
@loop 1
    invariant_except_break
        !end_of_data,
        dec_at(o, r1, lim, zc, DecSt { b: rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int),
            s: strs(lzw.dictionary@), cur: cur_of(lzw.curr_code), prev: prev_of(prev_code, prev_str@), bc: bit_count as int }),
        0 <= reader.pos() <= d.len(),
        decoder.ptr <= decoder.bits@.len() <= 520,
        decoder.count <= tot.len() - rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int).len(),
        bit_count >= chunk_bits ==> dec_chunk(o, r1, lzw_roots(), -1, None, 0, lim) == Some((zc, rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int), false)),
        bit_count <= tot.len() - rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int).len(),
    invariant
        /*C14*/ reader.failed() == old(compressed_in).failed(),
        reader.end_failed() == (*final(old(compressed_in))).failed(),
        /*C14*/ writer.failed() == old(expanded_out).failed(),
        *opt == o, d == old(compressed_in).data(), lzw_opts_ok(o), msb == is_msb(o), off == opt.out_offset,
        opt.in_offset <= d.len() <= MAX_LEN, x == body(d, opt.in_offset), tot == unpack(msb, x),
        tot.len() == 8 * x.len(), x.len() <= o.max_file_size,
        lim is None ==> chunk_bits == usize::MAX,
        lim is Some ==> chunk_bits == lim->0,
        reader.data() == d,
        decoder.ord == opt.ord,
        lzw.opt == o,
        dec_state(lzw.dictionary@, cur_of(lzw.curr_code), prev_code, prev_str@),
        cur_of(lzw.curr_code) <= lzw_max(o),
        writer.pos() == off + out.len() + zc.len(),
        placed(d0, off, out + zc, writer.data()),
        *final(writer.inner) == *final(old(expanded_out)),
        dec_chunk(o, r1, lzw_roots(), -1, None, 0, lim) is None ==> dec_all(o, tot) is None,
    ensures
        dec_chunk(o, r1, lzw_roots(), -1, None, 0, lim) matches Some((z, r, e)) && z == zc && e == end_of_data
            && (!e ==> r == rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int)
                && 0 <= reader.pos() <= d.len()
                && decoder.ptr <= decoder.bits@.len() <= 520
                && decoder.count <= tot.len() - r.len()),
    decreases rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int).len(),
@at loop1.begin
    let ghost ra = rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int);
    let ghost dict0 = lzw.dictionary@;
    let ghost cur0 = cur_of(lzw.curr_code);
    let ghost prev0 = prev_str@;
    let ghost pc0 = prev_code;
    let ghost st0 = DecSt { b: ra, s: strs(dict0), cur: cur0, prev: prev_of(prev_code, prev0), bc: bit_count as int };
    proof {
        lemma_pow2_mono(9, o.max_code_width as nat); lemma_pow2_values();
        lemma_first_free(o, cur0 + 1);
        if pc0 is Some { lemma_str_len(dict0, cur0, pc0->0); }
        lemma_dec_at_end(o, r1, lim, zc, st0);
    }
@at before "match lzw.dictionary.contains_key"
    proof {
        if !dict0.contains_key((code, usize::MAX)) && (next_code is None || next_code->0 != code) {
            lemma_dec_unknown(o, dict0, cur0, pc0, prev0, code, next_code);
        }
    }
@at before "if let (Some(next_code)"
    proof {
        if dict0.contains_key((code, usize::MAX)) { lemma_str_len(dict0, cur0, code); }
    }
@at before "writer.write_all("
    proof {
        lemma_dec_code(o, dict0, cur0, pc0, prev0, code, next_code, lzw.dictionary@, prev_str@);
        lemma_placed_append(d0, off, out + zc, writer.data(), prev_str@);
        lemma_dec_at_step(o, r1, lim, zc, st0, prev_str@, strs(lzw.dictionary@), cur_of(lzw.curr_code));
        assert(out + zc + prev_str@ =~= out + (zc + prev_str@));
    }
@at after "writer.write_all("
    proof { zc = zc + prev_str@; }
@at loop1.end
    proof {
        lemma_dec_at_end(o, r1, lim, zc, DecSt { b: rem(msb, d, reader.pos(), decoder.bits@, decoder.ptr as int),
            s: strs(lzw.dictionary@), cur: cur_of(lzw.curr_code), prev: Some(prev_str@), bc: bit_count as int });
    }
@at loop1.after
    proof { out = out + zc; }

@fn lzw::compress_slice
@ret r
@contract
    requires
        lzw_compress_ok(*opt),
        opt.out_offset == 0,
    ensures
        /*C10*/ slice@.len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> slice@.len() - opt.in_offset > opt.max_file_size,
        match r {
            Ok(v) => opt.in_offset <= slice@.len() && v@ == lzw_encode(body(slice@, opt.in_offset), *opt)
                && slice@.len() - opt.in_offset <= opt.max_file_size,
            Err(e) => is_fault(e)
                || is_lib(e, crate::Error::FileTooLarge) && slice@.len() - opt.in_offset > opt.max_file_size
                || is_lib(e, crate::Error::FileFormatMismatch) && opt.in_offset > slice@.len(),
        },
@at end
    proof { lemma_placed_all(lzw_encode(body(slice@, opt.in_offset), *opt), ans.inner@); }

@fn lzw::expand_slice
@ret r
@contract
    requires
        lzw_opts_ok(*opt),
        opt.out_offset == 0,
    ensures
        /*C10*/ slice@.len() - opt.in_offset > opt.max_file_size ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> slice@.len() - opt.in_offset > opt.max_file_size,
        match r {
            Ok(v) => opt.in_offset <= slice@.len() && lzw_decode(body(slice@, opt.in_offset), *opt) == Some(v@)
                && slice@.len() - opt.in_offset <= opt.max_file_size,
            Err(e) => is_fault(e)
                || is_lib(e, crate::Error::FileTooLarge) && slice@.len() - opt.in_offset > opt.max_file_size
                || is_lib(e, crate::Error::FileFormatMismatch)
                    && (opt.in_offset > slice@.len()
                        || slice@.len() - opt.in_offset <= opt.max_file_size && lzw_decode(body(slice@, opt.in_offset), *opt) is None),
        },
@at end
    proof { lemma_placed_all(lzw_decode(body(slice@, opt.in_offset), *opt)->0, ans.inner@); }

@module lzw
/// C01: what was compressed expands to the same bytes (slices)
pub fn client_lossless(x: &[u8], o: &Options)
    requires lzw_lossless(*o), o.in_offset == 0, o.out_offset == 0
{
    assert(body(x@, 0) =~= x@);
    match compress_slice(x, o) {
        Ok(v) => {
            assert(body(v@, 0) =~= v@);
            assert(lzw_decode(v@, *o) == Some(x@)) by { lemma_lzw_lossless(x@, *o); }
            match expand_slice(v.as_slice(), o) {
                Ok(y) => { assert(y@ == x@); }
                Err(e) => { assert(is_fault(e) || v@.len() > o.max_file_size); }
            }
        }
        Err(e) => { assert(is_fault(e) || x@.len() > o.max_file_size); }
    }
}
/// C01: and on streams that work nothing else can happen
pub fn client_lossless_ok(x: &[u8], o: &Options)
    requires lzw_lossless(*o), o.in_offset == 0, o.out_offset == 0, x@.len() <= o.max_file_size, io_works()
{
    assert(body(x@, 0) =~= x@);
    let r = compress_slice(x, o);
    assert(r is Ok);
    let v = match r { Ok(v) => v, Err(_) => return };
    assert(body(v@, 0) =~= v@);
    if v.len() as u64 <= o.max_file_size {
        proof { lemma_lzw_lossless(x@, *o); }
        let q = expand_slice(v.as_slice(), o);
        assert(q is Ok && q->Ok_0@ == x@);
    }
}
/// C09: every input within the limits is accepted, on streams that work
pub fn client_accepts<R: Read + Seek, W: Write + Seek>(a: &mut R, b: &mut W, o: &Options)
    requires
        lzw_compress_ok(*o), o.in_offset <= old(a).data().len(), old(a).data().len() - o.in_offset <= o.max_file_size,
        io_works(),
{
    let r = compress(a, b, o);
    assert(r is Ok);
}
/// the options agree on the format
pub open spec fn same_format(o: Options, p: Options) -> bool {
    &&& o.header_bits == p.header_bits && o.header_divisor == p.header_divisor && o.chunk_size == p.chunk_size
    &&& o.min_symbol == p.min_symbol && o.max_symbol == p.max_symbol && o.clear_code == p.clear_code && o.stop_code == p.stop_code
    &&& o.min_code_width == p.min_code_width && o.max_code_width == p.max_code_width && o.ord == p.ord
}
/// C11: where the bytes come from and go to changes nothing about them
pub proof fn lemma_format_only(x: Seq<u8>, o: Options, p: Options)
    requires same_format(o, p)
    ensures lzw_encode(x, o) == lzw_encode(x, p), lzw_decode(x, o) == lzw_decode(x, p)
{
    lemma_enc_bits_format(o, p, x, 0);
    lemma_dec_all_format(o, p, unpack(is_msb(o), x));
}
/// C01, C11: the same for streams, anywhere in them
pub fn client_lossless_streams<R: Read + Seek, W: Write + Seek, S: Read + Seek, T: Write + Seek>(a: &mut R, b: &mut W, o: &Options, c: &mut S, e: &mut T, p: &Options)
    requires
        lzw_lossless(*o), same_format(*o, *p), p.out_offset <= MAX_LEN,
        o.in_offset <= old(a).data().len() ==> old(b).data().len() <= o.out_offset + lzw_encode(body(old(a).data(), o.in_offset), *o).len(),
        // the second input is what the first step leaves behind
        p.in_offset == o.out_offset,
        old(c).data() == wr(old(b).data(), o.out_offset as int, lzw_encode(body(old(a).data(), o.in_offset), *o)),
{
    let ghost x = body(a.data(), o.in_offset);
    let ghost b0 = b.data();
    let ghost e0 = e.data();
    match compress(a, b, o) {
        Ok((n, m)) => {
            let ghost s = lzw_encode(x, *o);
            assert(b.data() == c.data() && n == x.len() && m == s.len());
            proof {
                lemma_lzw_lossless(x, *o);
                lemma_format_only(s, *o, *p);
                if s.len() > 0 { lemma_placed_body(b0, o.out_offset, s, c.data()); }
            }
            if m > 0 {
                match expand(c, e, p) {
                    Ok((k, l)) => { assert(k == m && l == n && e.data() == wr(e0, p.out_offset as int, x)); }
                    Err(err) => { assert(is_fault(err) || m > p.max_file_size); }
                }
            }
        }
        Err(err) => {  }
    }
}
/// C11: two runs on the same data, anywhere in any streams, give the same bytes
pub fn client_same_compress<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, o: &Options, c: &mut Q, e: &mut V, p: &Options)
    requires
        lzw_compress_ok(*o), lzw_compress_ok(*p), same_format(*o, *p), io_works(),
        o.in_offset <= old(a).data().len(), p.in_offset <= old(c).data().len(), body(old(a).data(), o.in_offset) == body(old(c).data(), p.in_offset),
        old(a).data().len() - o.in_offset <= o.max_file_size, old(c).data().len() - p.in_offset <= p.max_file_size,
{
    let ghost x = body(a.data(), o.in_offset);
    let ghost (b0, e0) = (b.data(), e.data());
    proof { lemma_format_only(x, *o, *p); }
    let r = compress(a, b, o);
    let q = compress(c, e, p);
    assert(r is Ok == q is Ok);
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m == l);
        if m > 0 {
            proof {
                lemma_placed_range(b0, o.out_offset as int, lzw_encode(x, *o), b.data());
                lemma_placed_range(e0, p.out_offset as int, lzw_encode(x, *o), e.data());
            }
            assert(b.data().subrange(o.out_offset as int, o.out_offset + m) == e.data().subrange(p.out_offset as int, p.out_offset + m));
        }
    }
}
/// C11: two runs on the same data, anywhere in any streams, give the same bytes
pub fn client_same_expand<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, o: &Options, c: &mut Q, e: &mut V, p: &Options)
    requires
        lzw_opts_ok(*o), lzw_opts_ok(*p), same_format(*o, *p), io_works(),
        o.in_offset <= old(a).data().len(), p.in_offset <= old(c).data().len(), body(old(a).data(), o.in_offset) == body(old(c).data(), p.in_offset),
        old(a).data().len() - o.in_offset <= o.max_file_size, old(c).data().len() - p.in_offset <= p.max_file_size,
{
    let ghost x = body(a.data(), o.in_offset);
    let ghost (b0, e0) = (b.data(), e.data());
    proof { lemma_format_only(x, *o, *p); }
    let r = expand(a, b, o);
    let q = expand(c, e, p);
    assert(r is Ok == q is Ok);
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m == l);
        if m > 0 {
            proof {
                lemma_placed_range(b0, o.out_offset as int, lzw_decode(x, *o)->0, b.data());
                lemma_placed_range(e0, p.out_offset as int, lzw_decode(x, *o)->0, e.data());
            }
            assert(b.data().subrange(o.out_offset as int, o.out_offset + m) == e.data().subrange(p.out_offset as int, p.out_offset + m));
        }
    }
}
/// the options that are offered are such
pub fn client_options()
{
    proof { lemma_pow2_values(); assert(pow2(12) == 4096) by(compute_only); }
    assert(lzw_lossless(STD_OPTIONS));
    assert(lzw_lossless(crate::td0::TD_V1_OPTIONS));
}
