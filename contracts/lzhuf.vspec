## direct_ports/lzhuf.rs: bit input, decoder
@module direct_ports::lzhuf
impl AdaptiveHuffman {
    pub open spec fn rest<R: crate::shim::io::Read>(&self, bytes: &crate::shim::io::Bytes<R>) -> Seq<bool> {
        rem(true, bytes.data(), bytes.pos(), self.bits@, self.ptr as int)
    }
    pub open spec fn io_ok<R: crate::shim::io::Read>(&self, bytes: &crate::shim::io::Bytes<R>) -> bool {
        &&& self.ptr <= self.bits@.len() <= 520 && self.bits@.len() < self.ptr + 8
        &&& 0 <= bytes.pos() <= bytes.data().len() <= MAX_LEN
        &&& self.count <= bytes.pos()
    }
    pub open spec fn io_pre<R: crate::shim::io::Read>(&self, bytes: &crate::shim::io::Bytes<R>) -> bool {
        &&& self.ptr <= self.bits@.len() <= 520 && self.bits@.len() <= self.ptr + 8
        &&& 0 <= bytes.pos() <= bytes.data().len() <= MAX_LEN
        &&& self.count <= bytes.pos()
    }
    pub open spec fn same_tree(&self, o: &Self) -> bool { self.freq == o.freq && self.son == o.son && self.prnt == o.prnt }
}
proof fn lemma_d_tables(i: int)
    requires 0 <= i < 256
    ensures D_LEN[i] == pos_len(i), D_CODE[i] == pos_code(i)
{
}
@fn direct_ports::lzhuf::LZSS::new
@ret r
@contract
    ensures
        r.dictionary@ == Seq::new((WIN_SIZE + LOOKAHEAD - 1) as nat, |i: int| 0u8),
        /*FN*/ r.match_length == 0 && r.match_position == 0,
        r.lson@.len() == WIN_SIZE + 1, r.rson@.len() == WIN_SIZE + 257, r.dad@.len() == WIN_SIZE + 1,

@fn direct_ports::lzhuf::AdaptiveHuffman::new
@ret r
@contract
    ensures r.dims(), r.bits@ == Seq::<bool>::empty(), r.ptr == 0, r.count == 0,

@fn direct_ports::lzhuf::AdaptiveHuffman::drop_leading_bits
@contract
    requires old(self).ptr <= old(self).bits@.len(),
    ensures
        final(self).bits@ == old(self).bits@.skip(old(self).ptr as int),
        final(self).ptr == 0,
        final(self).count == old(self).count,
        final(self).same_tree(old(self)),
@loop 0
    invariant
        cpy@ == old(self).bits@,
        self.ptr == old(self).ptr, self.count == old(self).count, self.same_tree(old(self)),
        self.ptr <= i <= cpy@.len(),
        self.bits@ == cpy@.subrange(self.ptr as int, i as int),

@fn direct_ports::lzhuf::AdaptiveHuffman::get_bit
@ret r
@contract
    requires old(self).io_pre(old(bytes)),
    ensures
        /*C14*/ no_fault(r, old(bytes).failed(), final(bytes).failed()),
        final(bytes).end_failed() == old(bytes).end_failed(),
        final(bytes).data() == old(bytes).data(),
        final(self).same_tree(old(self)),
        match r {
            Ok(b) => {
                &&& final(self).io_ok(final(bytes))
                &&& final(self).count - old(self).count == final(bytes).pos() - old(bytes).pos()
                &&& nb(old(self).rest(old(bytes)), true) == Some((b as int, final(self).rest(final(bytes))))
            },
            Err(e) => e.is_fault(),
        },
    decreases (if old(self).ptr < old(self).bits@.len() { 0int } else { 1int }),
@at start
    proof {
        let d = bytes.data();
        if self.ptr < self.bits@.len() { lemma_rem_get(true, d, bytes.pos(), self.bits@, self.ptr as int); }
        if bytes.pos() < d.len() {
            lemma_rem_feed(true, d, bytes.pos(), self.bits@, self.ptr as int);
            lemma_rem_drop(true, d, bytes.pos(), self.bits@, self.ptr as int);
            lemma_rem_feed(true, d, bytes.pos(), self.bits@.skip(self.ptr as int), 0);
        }
        if bytes.pos() >= d.len() && self.ptr == self.bits@.len() { lemma_rem_end(true, d, bytes.pos(), self.bits@); }
    }
@at before "if self.bits.len()>512"
    proof { assert([by]@ =~= seq![by]); }

@fn direct_ports::lzhuf::AdaptiveHuffman::get_byte
@ret r
@contract
    requires old(self).io_ok(old(bytes)),
    ensures
        /*C14*/ no_fault(r, old(bytes).failed(), final(bytes).failed()),
        final(bytes).end_failed() == old(bytes).end_failed(),
        final(bytes).data() == old(bytes).data(),
        final(self).same_tree(old(self)),
        match r {
            Ok(b) => {
                &&& final(self).io_ok(final(bytes))
                &&& final(self).count - old(self).count == final(bytes).pos() - old(bytes).pos()
                &&& nbits(old(self).rest(old(bytes)), 8, true) == Some((b as int, final(self).rest(final(bytes))))
            },
            Err(e) => e.is_fault(),
        },
@at start
    let ghost r0 = self.rest(bytes);
@loop 0
    invariant
        /*C14*/ bytes.failed() == old(bytes).failed(),
        bytes.end_failed() == old(bytes).end_failed(),
        r0 == old(self).rest(old(bytes)),
        bytes.data() == old(bytes).data(), self.same_tree(old(self)),
        self.io_ok(bytes),
        self.count - old(self).count == bytes.pos() - old(bytes).pos(),
        nbits(r0, _i as nat, true) == Some((ans as int, self.rest(bytes))),
@at loop0.begin
    proof {
        lemma_nbits_bound(r0, _i as nat, true);
        lemma_pow2_values(); lemma_pow2_mono(_i as nat, 7);
        let x: u8 = ans;
        assert(x < 128 ==> (x << 1) | 1 == 2 * x + 1 && (x << 1) | 0 == 2 * x) by(bit_vector);
    }

@fn direct_ports::lzhuf::AdaptiveHuffman::decode_char
@ret r
@contract
    requires old(self).io_ok(old(bytes)), old(self).inv(),
    ensures
        /*C14*/ no_fault(r, old(bytes).failed(), final(bytes).failed()),
        final(bytes).end_failed() == old(bytes).end_failed(),
        final(bytes).data() == old(bytes).data(),
        match r {
            Ok(c) => {
                &&& final(self).io_ok(final(bytes))
                &&& final(self).count - old(self).count == final(bytes).pos() - old(bytes).pos()
                &&& final(self).inv()
                &&& 0 <= c < N_CHAR
                &&& huf_sym(old(self).ht(), old(self).rest(old(bytes)), true) == Some((c as int, final(self).rest(final(bytes))))
                &&& final(self).ht() == ht_update(old(self).ht(), c as int)
            },
            Err(e) => e.is_fault(),
        },
@at start
    let ghost t = self.ht();
    proof { lemma_wf_parts(t); lemma_walk_start(t); lemma_son_range(t, t.son[t.root()] as int); }
    let ghost w0 = huf_sym(t, self.rest(bytes), true);
@loop 0
    invariant
        /*C14*/ bytes.failed() == old(bytes).failed(),
        bytes.end_failed() == old(bytes).end_failed(),
        t == self.ht(), self.same_tree(old(self)), self.inv(), ht_dims(t), ht_sons(t), t.n == N_CHAR,
        bytes.data() == old(bytes).data(), self.io_ok(bytes),
        self.count - old(self).count == bytes.pos() - old(bytes).pos(),
        is_son(t, c as int), c < t.nn() + t.n,
        w0 == huf_sym(t, old(self).rest(old(bytes)), true),
        w0 == huf_walk(t, c as int, self.rest(bytes), true),
    decreases (if c < t.nn() { c + 1 } else { 0 }),
@at loop0.begin
    proof { lemma_walk_step(t, c as int, self.rest(bytes), true); }
@at loop0.end
    proof { lemma_son_range(t, c as int); }

@fn direct_ports::lzhuf::AdaptiveHuffman::decode_position
@ret r
@contract
    requires old(self).io_ok(old(bytes)),
    ensures
        /*C14*/ no_fault(r, old(bytes).failed(), final(bytes).failed()),
        final(bytes).end_failed() == old(bytes).end_failed(),
        final(bytes).data() == old(bytes).data(),
        final(self).same_tree(old(self)), final(self).ht() == old(self).ht(),
        old(self).inv() ==> final(self).inv(),
        match r {
            Ok(p) => {
                &&& final(self).io_ok(final(bytes))
                &&& final(self).count - old(self).count == final(bytes).pos() - old(bytes).pos()
                &&& p < 4096
                &&& huf_pos(old(self).rest(old(bytes)), true) == Some((p as int, final(self).rest(final(bytes))))
            },
            Err(e) => e.is_fault(),
        },
@loop 0
    invariant
        /*C14*/ bytes.failed() == old(bytes).failed(),
        bytes.end_failed() == old(bytes).end_failed(),
        0 <= i8 < 256, coded_bits == pos_len(i8), 3 <= coded_bits <= 8,
        nbits(old(self).rest(old(bytes)), 8, true) == Some((i8, r1)),
        bytes.data() == old(bytes).data(), self.same_tree(old(self)),
        self.count - old(self).count == bytes.pos() - old(bytes).pos(),
        self.io_ok(bytes),
        nbits(r1, _i as nat, true) matches Some((x, rr)) && rr == self.rest(bytes) && first8 == i8 * pow2(_i as nat) + x,
@at before "let upper6"
    let ghost i8 = first8 as int;
    let ghost r1 = self.rest(bytes);
    proof { lemma_nbits_bound(old(self).rest(old(bytes)), 8, true); lemma_pow2_values(); lemma_d_tables(i8); lemma_pos_tables(i8); }
@at loop0.before
    proof { assert(pow2(0) == 1); }
@at loop0.begin
    proof {
        lemma_nbits_bound(r1, _i as nat, true);
        lemma_pow2_values(); lemma_pow2_mono(_i as nat, 5);
        let m = pow2(_i as nat);
        assert(i8 * m + m <= 8192) by(nonlinear_arith) requires 0 <= i8 <= 255, 1 <= m <= 32 { }
        assert(pow2((_i + 1) as nat) == 2 * m);
        assert(i8 * (2 * m) == 2 * (i8 * m)) by(nonlinear_arith);
        let x: u16 = first8;
        assert(x < 8192 ==> x << 1 == 2 * x) by(bit_vector);
    }
@at loop0.after
    proof {
        let a = D_CODE[i8] as u16;
        let b = first8;
        assert(a < 64 ==> (a << 6) | (b & 0x3f) == 64 * a + b % 64) by(bit_vector);
        assert(a < 64 ==> a << 6 == 64 * a) by(bit_vector);
    }

@fn direct_ports::lzhuf::decode
@ret r
@contract
    requires
        0 <= old(compressed_in).pos() <= old(compressed_in).data().len(),
        old(expanded_out).pos() == 0,
    ensures
        /*C10*/ r matches Ok((n, m)) ==> n == port_used(old(compressed_in).data().skip(old(compressed_in).pos())),
        /*C14*/ r is Ok ==> final(compressed_in).failed() == old(compressed_in).failed() && final(expanded_out).failed() == old(expanded_out).failed(),
        ({
            let x = old(compressed_in).data().skip(old(compressed_in).pos());
            match r {
                Ok((a, b)) => {
                    &&& port_decode(x) matches Some(s) && b == s.len() && b <= MAX_LEN
                        && placed(old(expanded_out).data(), 0, s, final(expanded_out).data())
                    &&& a == port_used(x) && a <= x.len()
                },
                Err(e) => is_fault(e) || is_eof(e) && x.len() < 4,
            }
        }),
@at start
    hide(lz_run); hide(lz_left); hide(ring_ok); hide(lz_copy); hide(lz_win); hide(huf_sym); hide(huf_pos); hide(AdaptiveHuffman::inv);
    let ghost d = compressed_in.data();
    let ghost pos0 = compressed_in.pos();
    let ghost d0 = expanded_out.data();
    let ghost x = d.skip(pos0);
@at before "let mut bytes ="
    let ghost p = port_params(textsize as int);
    let ghost bits0 = unpack_msb(x.skip(4));
    let ghost mut out = Seq::<u8>::empty();
    proof {
        assert(d.skip(pos0 + 4) =~= x.skip(4));
        assert(d.subrange(pos0, pos0 + 4) =~= x.take(4));
        lemma_rem_start(true, d, pos0 + 4);
        lemma_placed_nothing(d0, 0);
        assert(p.nsym() == 314);
        assert(Some(lz_run(p, ht_init(314), bits0, Seq::empty())) == port_decode(x));
    }
@loop 0
    invariant
        lzss.dictionary@.len() == WIN_SIZE + LOOKAHEAD - 1,
        forall|k: int| 0 <= k < i ==> #[trigger] lzss.dictionary@[k] == 32,
        forall|k: int| i <= k < WIN_SIZE ==> #[trigger] lzss.dictionary@[k] == 0,
@at loop1.before
    proof {
        lemma_ring_start(p, lzss.dictionary@.take(4096));
        if out.len() >= p.max { lemma_run_end(p, huff.ht(), huff.rest(&bytes), out); lemma_left_end(p, huff.ht(), huff.rest(&bytes), out); }
    }
@loop 1
    invariant
        /*C14*/ bytes.failed() == old(compressed_in).failed(),
        bytes.end_failed() == (*final(old(compressed_in))).failed(),
        /*C14*/ writer.failed() == old(expanded_out).failed(),
        p == port_params(textsize as int), d0 == old(expanded_out).data(),
        bytes.data() == d, 0 <= pos0 <= d.len() <= MAX_LEN, x == d.skip(pos0), bits0 == unpack_msb(x.skip(4)), x.len() >= 4,
        lz_run(p, huff.ht(), huff.rest(&bytes), out) == lz_run(p, ht_init(314), bits0, Seq::empty()),
        lz_left(p, huff.ht(), huff.rest(&bytes), out) == lz_left(p, ht_init(314), bits0, Seq::empty()),
        huff.io_ok(&bytes), huff.inv(),
        huff.count == bytes.pos() - pos0 - 4,
        out.len() >= p.max ==> out == lz_run(p, ht_init(314), bits0, Seq::empty()) && huff.rest(&bytes) == lz_left(p, ht_init(314), bits0, Seq::empty()),
        lzss.dictionary@.len() == WIN_SIZE + LOOKAHEAD - 1,
        r < 4096, ring_ok(p, out, lzss.dictionary@.take(4096), r as int),
        writer.pos() == out.len(),
        placed(d0, 0, out, writer.data()),
        *final(writer.inner) == *final(old(expanded_out)),
    decreases (if textsize > out.len() { textsize - out.len() } else { 0 }),
@at loop1.begin
    let ghost t0 = huff.ht();
    let ghost r0 = huff.rest(&bytes);
    let ghost o0 = out;
    proof { lemma_run_step(p, t0, r0, out); lemma_left_step(p, t0, r0, out); }
@at before "writer.write("
    proof {
        assert([c as u8]@ =~= seq![c as u8]);
        assert(seq![c as u8].take(1) =~= seq![c as u8]);
        lemma_placed_append(d0, 0, out, writer.data(), seq![c as u8]);
        assert(out + seq![c as u8] =~= out.push(c as u8));
        lemma_ring_push(p, out, lzss.dictionary@.take(4096), r as int, c as u8);
        assert(lzss.dictionary@.update(r as int, c as u8).take(4096) =~= lzss.dictionary@.take(4096).update(r as int, c as u8));
        assert(r < 4096 ==> ((r + 1) as usize) & 4095 == (r + 1) % 4096) by(bit_vector);
        out = out.push(c as u8);
    }
@at before "let strlen"
    let ghost q = (if strpos < r { r - strpos - 1 } else { r + 4096 - strpos - 1 }) as int;
    let ghost out1 = out;
    proof {
        assert forall|y: i32| #![trigger (y & 4095)] -4096 <= y < 4096 implies (y & 4095) == (if y < 0 { y + 4096 } else { y as int }) by {
            assert(-4096 <= y < 0 ==> (y & 4095) == y + 4096) by(bit_vector);
            assert(0 <= y < 4096 ==> (y & 4095) == y) by(bit_vector);
        }
        lemma_copy_zero(p, out1, q % p.w + 1);
    }
@loop 2
    invariant
        /*C14*/ bytes.failed() == old(compressed_in).failed(),
        bytes.end_failed() == (*final(old(compressed_in))).failed(),
        /*C14*/ writer.failed() == old(expanded_out).failed(),
        p == port_params(textsize as int), d0 == old(expanded_out).data(),
        0 <= q < 4096, strpos < 4096, strlen <= 400,
        out == lz_copy(p, out1, q % p.w + 1, k as nat),
        lzss.dictionary@.len() == WIN_SIZE + LOOKAHEAD - 1,
        r < 4096, ring_ok(p, out, lzss.dictionary@.take(4096), r as int),
        (strpos + k) % 4096 == ring_at(r as int, 4096, q + 1),
        writer.pos() == out.len(),
        placed(d0, 0, out, writer.data()),
        *final(writer.inner) == *final(old(expanded_out)),
@at loop2.begin
    proof {
        lemma_ring_get(p, out, lzss.dictionary@.take(4096), r as int, q);
        lemma_port_window(r as int, q, strpos + k);
        let c = lz_win(p, out, q % p.w + 1);
        lemma_copy_next(p, out1, q % p.w + 1, k as nat);
        assert([c]@ =~= seq![c]);
        assert(seq![c].take(1) =~= seq![c]);
        lemma_placed_append(d0, 0, out, writer.data(), seq![c]);
        assert(out + seq![c] =~= out.push(c));
        lemma_ring_push(p, out, lzss.dictionary@.take(4096), r as int, c);
        assert(lzss.dictionary@.update(r as int, c).take(4096) =~= lzss.dictionary@.take(4096).update(r as int, c));
        assert(r < 4096 ==> ((r + 1) as usize) & 4095 == (r + 1) % 4096) by(bit_vector);
        let s = (strpos + k) as usize;
        assert(s < 10000 ==> s & 4095 == s % 4096) by(bit_vector);
        assert((r - (q + 1)) % 4096 == ring_at(r as int, 4096, q + 1));
    }
@at loop2.end
    proof { out = out.push(c8); }
@at loop2.after
    proof { lemma_copy_len(p, out1, q % p.w + 1, strlen as nat); }
@at loop1.end
    proof { if out.len() >= p.max { lemma_run_end(p, huff.ht(), huff.rest(&bytes), out); lemma_left_end(p, huff.ht(), huff.rest(&bytes), out); } }


@fn direct_ports::lzhuf::decode_slice
@ret r
@contract
    ensures
        match r {
            Ok(v) => port_decode(slice@) == Some(v@),
            Err(e) => is_fault(e) || is_eof(e) && slice@.len() < 4,
        },
@at start
    proof { assert(slice@.skip(0) =~= slice@); }
@at end
    proof { lemma_placed_all(port_decode(slice@)->0, ans.inner@); }
@fn direct_ports::lzhuf::AdaptiveHuffman::put_code
@ret r
@contract
    requires
        num_bits <= 32,
        old(self).bits@.len() < 8, old(self).ptr == 0, old(writer).pos() >= 0,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        final(self).same_tree(old(self)), final(self).ht() == old(self).ht(), old(self).inv() ==> final(self).inv(),
        match r {
            Ok(_) => {
                &&& codes_put(old(writer).data(), old(writer).pos(), old(self).bits@, top_bits(code, num_bits as int),
                        final(writer).data(), final(writer).pos(), final(self).bits@)
                &&& final(self).bits@.len() < 8 && final(self).ptr == 0
                &&& old(writer).pos() <= final(writer).pos() <= MAX_LEN
            },
            Err(e) => e.is_fault(),
        },
@at start
    let ghost code0 = code;
    let ghost bits0 = self.bits@;
    proof { assert(code0 << 0 == code0) by(bit_vector); assert(bits0 + top_bits(code0, 0) =~= bits0); }
@loop 0
    invariant
        num_bits <= 32, self.same_tree(old(self)),
        _i < 32 ==> code == code0 << (_i as u32),
        self.ptr == _i,
        self.bits@ == bits0 + top_bits(code0, _i as int),
@at loop0.begin
    proof {
        lemma_top_shift(code0, _i as int);
        let k = _i as int;
        assert(top_bits(code0, k + 1) =~= top_bits(code0, k).push(top_bit(code0, k)));
        assert(bits0 + top_bits(code0, k + 1) =~= (bits0 + top_bits(code0, k)).push(top_bit(code0, k)));
    }
@at before "writer.write("
    let ghost tot = bits0 + top_bits(code0, num_bits as int);
    proof {
        assert(bytes@ == pack(true, tot));
        assert(bytes@.len() == (tot.len() + 7) / 8);
        assert(bytes@.take(bytes@.len() as int) =~= bytes@);
        lemma_codes_put(writer.data(), writer.pos(), bits0, top_bits(code0, num_bits as int));
        if tot.len() % 8 == 0 { assert(tot.skip(8 * (tot.len() as int / 8)) =~= Seq::<bool>::empty()); }
    }
@at end
    proof { assert(self.bits@ =~= tot.skip(8 * (tot.len() as int / 8))); }

@fn direct_ports::lzhuf::AdaptiveHuffman::finish
@ret r
@contract
    requires 0 <= old(writer).pos() <= MAX_LEN,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        *final(self) == *old(self),
        match r {
            Ok(_) => final(writer).pos() == old(writer).pos() + (if old(self).bits@.len() > 0 { 1int } else { 0 }) && final(writer).data() == old(writer).data(),
            Err(e) => e.is_fault(),
        },

@fn direct_ports::lzhuf::AdaptiveHuffman::encode_char
@ret r
@contract
    requires
        old(self).inv(), c < N_CHAR,
        old(self).bits@.len() < 8, old(self).ptr == 0, old(writer).pos() >= 0,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        match r {
            Ok(_) => {
                &&& codes_put(old(writer).data(), old(writer).pos(), old(self).bits@, huf_code(old(self).ht(), ht_leaf_of(old(self).ht(), c as int)),
                        final(writer).data(), final(writer).pos(), final(self).bits@)
                &&& final(self).inv() && final(self).ht() == ht_update(old(self).ht(), c as int)
                &&& final(self).bits@.len() < 8 && final(self).ptr == 0
                &&& old(writer).pos() <= final(writer).pos() <= MAX_LEN
            },
            Err(e) => e.is_fault(),
        },
@at start
    let ghost t = self.ht();
    let ghost leaf = ht_leaf_of(t, c as int);
    let ghost mut d = 0int;
    proof {
        lemma_wf_parts(t);
        assert(is_leaf_of(t, leaf, c as int));
        lemma_code_sym(t, c as int, Seq::empty(), false);
        assert(t.son[leaf] >= t.nn());
        lemma_fib_first(t, leaf);
        assert(top_bits(0, 0) =~= Seq::<bool>::empty());
        assert(huf_code(t, leaf) + top_bits(0, 0) =~= huf_code(t, leaf));
    }
@loop 0
    invariant_except_break
        0 <= k < t.root(),
        t.freq[k as int] >= fib((d + 2) as nat), t.freq[ht_par(t, k as int)] >= fib((d + 3) as nat),
        huf_code(t, leaf) == huf_code(t, k as int) + top_bits(i, j as int),
    invariant
        t == self.ht(), self.inv(), self.same_tree(old(self)), t.n == N_CHAR, leaf == ht_leaf_of(t, c as int),
        self.bits@ == old(self).bits@, self.ptr == old(self).ptr,
        *writer == *old(writer),
        ht_dims(t), ht_sons(t), ht_links(t), ht_keys(t), ht_sums(t, -1),
        d == j, 0 <= d <= 21,
    ensures
        huf_code(t, leaf) == top_bits(i, j as int),
    decreases t.root() - k,
@at loop0.begin
    let ghost k0 = k as int;
    proof {
        lemma_fib_bound(t, k0, d);
        lemma_par_above(t, k0);
        let p = ht_par(t, k0);
        assert(t.son[p] < t.nn());
        lemma_fib_bound(t, p, d + 1);
        let b: u32 = (k0 % 2) as u32;
        let x = k0 as usize;
        assert((x as u32) & 1 == x % 2) by(bit_vector);
        assert(x & 1 == x % 2) by(bit_vector);
        assert(1u32 << 31 == 0x8000_0000u32 && 0u32 << 31 == 0) by(bit_vector);
        lemma_top_front(i, j as int, b);
        assert(huf_code(t, k0) == huf_code(t, p).push(k0 % 2 == 1));
        assert(huf_code(t, p).push(k0 % 2 == 1) + top_bits(i, j as int) =~= huf_code(t, p) + (seq![k0 % 2 == 1] + top_bits(i, j as int)));
        if p < t.root() { lemma_fib_step(t, k0, p, d); }
        if p == t.root() { assert forall|s: Seq<bool>| huf_code(t, p) + s == s by { assert(huf_code(t, p) + s =~= s); } }
        d = d + 1;
    }

@fn direct_ports::lzhuf::AdaptiveHuffman::encode_position
@ret r
@contract
    requires
        c < 4096,
        old(self).bits@.len() < 8, old(self).ptr == 0, old(writer).pos() >= 0,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        final(self).same_tree(old(self)), final(self).ht() == old(self).ht(), old(self).inv() ==> final(self).inv(),
        match r {
            Ok(_) => {
                &&& codes_put(old(writer).data(), old(writer).pos(), old(self).bits@, pos_bits(c as int),
                        final(writer).data(), final(writer).pos(), final(self).bits@)
                &&& final(self).bits@.len() < 8 && final(self).ptr == 0
                &&& old(writer).pos() <= final(writer).pos() <= MAX_LEN
            },
            Err(e) => e.is_fault(),
        },
@at start
    proof {
        assert(c < 4096 ==> c >> 6 == c / 64 && c & 0x3f == c % 64 && c / 64 < 64) by(bit_vector);
        lemma_p_tables(c as int / 64);
        assert forall|d: Seq<u8>, p: int, b: Seq<bool>, d1: Seq<u8>, p1: int, b1: Seq<bool>, d2: Seq<u8>, p2: int, b2: Seq<bool>|
            codes_put(d, p, b, top_bits(((p_code(c as int / 64) as u32) << 24) as u32, p_len(c as int / 64)), d1, p1, b1)
            && #[trigger] codes_put(d1, p1, b1, top_bits(((c as int % 64) as u32) << 26, 6), d2, p2, b2)
            implies #[trigger] codes_put(d, p, b, pos_bits(c as int), d2, p2, b2) by {
            lemma_codes_two(d, p, b, top_bits(((p_code(c as int / 64) as u32) << 24) as u32, p_len(c as int / 64)), d1, p1, b1,
                top_bits(((c as int % 64) as u32) << 26, 6), d2, p2, b2);
        }
    }

@module direct_ports::lzhuf
proof fn lemma_p_tables(i: int)
    requires 0 <= i < 64
    ensures P_LEN[i] == p_len(i), P_CODE[i] == p_code(i), 1 <= P_LEN[i] <= 8
{
}
@end
