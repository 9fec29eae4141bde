## bit level input and output of lzw.rs
@fn lzw::bits_to_bytes_lsb0
@ret r
@contract
    ensures r@ == pack_lsb(bits@),
@loop 0
    invariant
        byte_count == bits@.len() / 8, bits@.len() <= usize::MAX,
        ans@.len() == i,
        forall|k: int| 0 <= k < i ==> #[trigger] ans@[k] == byte_lsb(bits@, 8 * k),
@loop 1
    invariant
        byte_count == bits@.len() / 8, bits@.len() <= usize::MAX,
        0 <= i < byte_count,
        val as int == part_lsb(bits@, 8 * i, b as nat),
@at loop0.begin
    proof { assert(part_lsb(bits@, 8 * i, 0) == 0); }
@at loop1.begin
    proof {
        lemma_part_bound(bits@, 8 * i, b as nat);
        lemma_or_bit8(val, bits@[8 * i + b] as u8, b as usize);
        assert(bit_at(bits@, 8 * i + b) == bits@[8 * i + b] as u8);
    }
@at loop1.after
    proof { lemma_part_byte(bits@, 8 * i, 8); }
@loop 2
    invariant
        byte_count == bits@.len() / 8, bits@.len() <= usize::MAX,
        rem == bits@.len() % 8,
        val as int == part_lsb(bits@, 8 * byte_count, b as nat),
@at loop2.before
    proof { assert(part_lsb(bits@, 8 * byte_count, 0) == 0); }
@at loop2.begin
    proof {
        lemma_part_bound(bits@, 8 * byte_count, b as nat);
        lemma_or_bit8(val, bits@[8 * byte_count + b] as u8, b as usize);
        assert(bit_at(bits@, 8 * byte_count + b) == bits@[8 * byte_count + b] as u8);
    }
@at loop2.after
    proof { lemma_part_byte(bits@, 8 * byte_count, rem as nat); }
@at end
    proof { assert(ans@ =~= pack_lsb(bits@)); }

@fn lzw::bytes_to_bits_lsb0
@ret r
@contract
    ensures r@ == unpack_lsb(bytes@),
@loop 0
    invariant
        ans@ == unpack_lsb(bytes@.take(i as int)),
@loop 1
    invariant
        0 <= i < bytes@.len(),
        val == bytes@[i as int],
        ans@ == unpack_lsb(bytes@).take(8 * i + b),
@at loop0.begin
    proof { assert(unpack_lsb(bytes@.take(i as int)) =~= unpack_lsb(bytes@).take(8 * i)); }
@at loop1.begin
    proof {
        lemma_mask8(val, b as usize);
        let k = 8 * i + b;
        assert(k / 8 == i && k % 8 == b);
        assert(unpack_lsb(bytes@)[k] == lsb_bit(val, b as int));
        assert(unpack_lsb(bytes@).take(k).push(lsb_bit(val, b as int)) =~= unpack_lsb(bytes@).take(k + 1));
    }
@at loop1.after
    proof { assert(unpack_lsb(bytes@.take(i as int + 1)) =~= unpack_lsb(bytes@).take(8 * (i + 1))); }
@at end
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }

@fn lzw::LZWCoder::new
@ret r
@contract
    ensures r.bits@ == Seq::<bool>::empty(), r.ptr == 0, r.count == 0, r.ord == ord,

@fn lzw::LZWCoder::drop_leading_bits
@contract
    requires old(self).ptr <= old(self).bits@.len(),
    ensures
        final(self).bits@ == old(self).bits@.skip(old(self).ptr as int),
        final(self).ptr == 0,
        final(self).count == old(self).count,
        final(self).ord == old(self).ord,
@loop 0
    invariant
        cpy@ == old(self).bits@,
        self.ptr == old(self).ptr, self.count == old(self).count, self.ord == old(self).ord,
        self.ptr <= i <= cpy@.len(),
        self.bits@ == cpy@.subrange(self.ptr as int, i as int),

@fn lzw::LZWCoder::put_code
@ret r
@contract
    requires
        1 <= num_bits <= 32,
        old(self).bits@.len() < 8,
        old(self).ptr == 0,
        old(self).count < usize::MAX,
        old(writer).pos() >= 0,
    ensures
        /*C14*/ no_fault(r, old(writer).failed(), final(writer).failed()),
        *final(final(writer).inner) == *final(old(writer).inner),
        final(self).ord == old(self).ord,
        match r {
            Ok(_) => {
                let msb = old(self).ord == BitOrder::Msb0;
                let tot = old(self).bits@ + bits_of(msb, code as nat, num_bits as nat);
                let k = tot.len() as int / 8;
                &&& final(self).bits@ == tot.skip(8 * k)
                &&& final(self).ptr == 0
                &&& final(self).count == old(self).count + 1
                &&& final(writer).data() == wr(old(writer).data(), old(writer).pos(), pack(msb, tot))
                &&& final(writer).pos() == old(writer).pos() + k
                &&& final(writer).pos() <= MAX_LEN
            },
            Err(e) => e.is_fault(),
        },
@at start
    let ghost code0 = code;
    let ghost bits0 = self.bits@;
    let ghost msb = self.ord == BitOrder::Msb0;
    proof { lemma_bits_len(msb, code0 as nat, num_bits as nat); }
@loop 0
    invariant
        1 <= num_bits <= 32,
        msk == 0x8000_0000_0000_0000,
        code == (code0 << ((64 - num_bits) as usize)) << (_i as usize),
        self.ptr == _i,
        self.ord == old(self).ord, self.count == old(self).count,
        bits_msb(code0 as nat, num_bits as nat).len() == num_bits,
        self.bits@ == bits0 + bits_msb(code0 as nat, num_bits as nat).take(_i as int),
@at loop0.before
    proof {
        assert(1usize << 63u32 == 0x8000_0000_0000_0000) by(bit_vector);
        let x = code0 << ((64 - num_bits) as usize);
        assert(x << 0 == x) by(bit_vector);
    }
@at loop0.begin
    proof {
        lemma_top_bit(code0, num_bits, _i as usize);
        let x = code0 << ((64 - num_bits) as usize);
        let k = _i as usize;
        assert((x << k) << 1 == x << ((k + 1) as usize)) by(bit_vector) requires k < 32;
        let b = bits_msb(code0 as nat, num_bits as nat);
        assert(b.take(k as int).push(b[k as int]) =~= b.take(k + 1));
        assert(bits0 + b.take(k as int).push(b[k as int]) =~= (bits0 + b.take(k as int)).push(b[k as int]));
    }
@loop 1
    invariant
        1 <= num_bits <= 32,
        self.ptr == _i,
        self.ord == old(self).ord, self.count == old(self).count,
        self.bits@ + bits_lsb(code as nat, (num_bits - _i) as nat) == bits0 + bits_lsb(code0 as nat, num_bits as nat),
@at loop1.begin
    proof {
        assert((code & 1 > 0) == (code % 2 == 1)) by(bit_vector);
        assert(code >> 1 == code / 2) by(bit_vector);
        let t = bits_lsb((code / 2) as nat, (num_bits - _i - 1) as nat);
        let c = code % 2 == 1;
        assert(bits_lsb(code as nat, (num_bits - _i) as nat) == seq![c] + t);
        assert(self.bits@.push(c) + t =~= self.bits@ + (seq![c] + t));
    }
@at before "writer.write("
    let ghost tot = bits0 + bits_of(msb, code0 as nat, num_bits as nat);
    proof {
        if msb { assert(bits_msb(code0 as nat, num_bits as nat).take(num_bits as int) =~= bits_msb(code0 as nat, num_bits as nat)); }
        else { assert(bits_lsb(code as nat, 0) =~= Seq::<bool>::empty()); assert(self.bits@ + Seq::<bool>::empty() =~= self.bits@); }
        assert(self.bits@ =~= tot);
        assert(bytes@ == pack(msb, tot));
        assert(bytes@.len() == (tot.len() + 7) / 8);
        assert(bytes@.take(bytes@.len() as int) =~= bytes@);
    }
@at before "self.count += 1"
    proof { assert(self.bits@ =~= tot.skip(8 * (tot.len() as int / 8))); }

@fn lzw::LZWDecoder::new
@ret r
@contract
    ensures r.bits@ == Seq::<bool>::empty(), r.ptr == 0, r.count == 0, r.ord == ord,

@fn lzw::LZWDecoder::drop_leading_bits
@contract
    requires old(self).ptr <= old(self).bits@.len(),
    ensures
        final(self).bits@ == old(self).bits@.skip(old(self).ptr as int),
        final(self).ptr == 0,
        final(self).count == old(self).count,
        final(self).ord == old(self).ord,
@loop 0
    invariant
        cpy@ == old(self).bits@,
        self.ptr == old(self).ptr, self.count == old(self).count, self.ord == old(self).ord,
        self.ptr <= i <= cpy@.len(),
        self.bits@ == cpy@.subrange(self.ptr as int, i as int),

@fn lzw::LZWDecoder::get_bit
@ret r
@contract
    requires
        old(self).ptr <= old(self).bits@.len() <= 520,
        0 <= old(reader).pos() <= old(reader).data().len(),
    ensures
        /*C14*/ no_fault(r, old(reader).failed(), final(reader).failed()),
        final(reader).end_failed() == old(reader).end_failed(),
        final(reader).data() == old(reader).data(),
        final(self).ord == old(self).ord,
        final(self).count == old(self).count,
        ({
            let msb = old(self).ord == BitOrder::Msb0;
            let r0 = rem(msb, old(reader).data(), old(reader).pos(), old(self).bits@, old(self).ptr as int);
            match r {
                Ok(b) => {
                    &&& final(self).ptr <= final(self).bits@.len() <= 520
                    &&& 0 <= final(reader).pos() <= final(reader).data().len()
                    &&& r0.len() > 0
                    &&& b as int == bitval(r0[0])
                    &&& rem(msb, final(reader).data(), final(reader).pos(), final(self).bits@, final(self).ptr as int) == r0.skip(1)
                },
                Err(e) => e.is_fault() || e.is_eof() && r0.len() == 0,
            }
        }),
    decreases (if old(self).ptr < old(self).bits@.len() { 0int } else { 1int }),
@at start
    let ghost msb = self.ord == BitOrder::Msb0;
    proof {
        let d = reader.data();
        if self.ptr < self.bits@.len() { lemma_rem_get(msb, d, reader.pos(), self.bits@, self.ptr as int); }
        if reader.pos() < d.len() {
            lemma_rem_feed(msb, d, reader.pos(), self.bits@, self.ptr as int);
            lemma_rem_drop(msb, d, reader.pos(), self.bits@, self.ptr as int);
            lemma_rem_feed(msb, d, reader.pos(), self.bits@.skip(self.ptr as int), 0);
            assert(d.subrange(reader.pos(), reader.pos() + 1) =~= seq![d[reader.pos()]]);
        }
        if reader.pos() >= d.len() && self.ptr == self.bits@.len() { lemma_rem_end(msb, d, reader.pos(), self.bits@); }
    }

@fn lzw::LZWDecoder::get_code
@ret r
@contract
    requires
        num_bits <= 32,
        old(self).ptr <= old(self).bits@.len() <= 520,
        old(self).count < usize::MAX,
        0 <= old(reader).pos() <= old(reader).data().len(),
    ensures
        /*C14*/ no_fault(r, old(reader).failed(), final(reader).failed()),
        final(reader).end_failed() == old(reader).end_failed(),
        final(reader).data() == old(reader).data(),
        final(self).ord == old(self).ord,
        ({
            let msb = old(self).ord == BitOrder::Msb0;
            let r0 = rem(msb, old(reader).data(), old(reader).pos(), old(self).bits@, old(self).ptr as int);
            match r {
                Ok(v) => {
                    &&& final(self).ptr <= final(self).bits@.len() <= 520
                    &&& 0 <= final(reader).pos() <= final(reader).data().len()
                    &&& final(self).count == old(self).count + 1
                    &&& r0.len() >= num_bits
                    &&& v as nat == val_of(msb, r0.take(num_bits as int))
                    &&& v < pow2(num_bits as nat)
                    &&& rem(msb, final(reader).data(), final(reader).pos(), final(self).bits@, final(self).ptr as int) == r0.skip(num_bits as int)
                },
                Err(e) => e.is_fault() || e.is_eof() && r0.len() < num_bits,
            }
        }),
@at start
    let ghost msb = self.ord == BitOrder::Msb0;
    let ghost r0 = rem(msb, reader.data(), reader.pos(), self.bits@, self.ptr as int);
    proof { assert(r0.skip(0) =~= r0); assert(r0.take(0) =~= Seq::<bool>::empty()); lemma_pow2_values(); }
@loop 0
    invariant
        /*C14*/ reader.failed() == old(reader).failed(),
        reader.end_failed() == old(reader).end_failed(),
        num_bits <= 32,
        msb,
        self.ord == old(self).ord, msb == (self.ord == BitOrder::Msb0), self.count == old(self).count,
        reader.data() == old(reader).data(),
        self.ptr <= self.bits@.len() <= 520,
        0 <= reader.pos() <= reader.data().len(),
        r0.len() >= _i,
        r0 == rem(msb, old(reader).data(), old(reader).pos(), old(self).bits@, old(self).ptr as int),
        rem(msb, reader.data(), reader.pos(), self.bits@, self.ptr as int) == r0.skip(_i as int),
        ans as nat == val_msb(r0.take(_i as int)),
@loop 1
    invariant
        /*C14*/ reader.failed() == old(reader).failed(),
        reader.end_failed() == old(reader).end_failed(),
        num_bits <= 32,
        !msb,
        self.ord == old(self).ord, msb == (self.ord == BitOrder::Msb0), self.count == old(self).count,
        reader.data() == old(reader).data(),
        self.ptr <= self.bits@.len() <= 520,
        0 <= reader.pos() <= reader.data().len(),
        r0.len() >= i,
        r0 == rem(msb, old(reader).data(), old(reader).pos(), old(self).bits@, old(self).ptr as int),
        rem(msb, reader.data(), reader.pos(), self.bits@, self.ptr as int) == r0.skip(i as int),
        ans as nat == val_lsb(r0.take(i as int)),
@at loop0.begin
    let ghost a0 = ans;
    proof {
        lemma_pow2_mono(_i as nat, 32); lemma_pow2_values();
        lemma_val_bound(true, r0.take(_i as int));
    }
@at loop0.end
    proof {
        assert(r0.skip(_i as int).skip(1) =~= r0.skip(_i as int + 1));
        assert(r0.take(_i as int + 1) =~= r0.take(_i as int).push(r0[_i as int]));
        lemma_val_msb_push(r0.take(_i as int), r0[_i as int]);
        lemma_shl_or(a0, b2n(r0[_i as int]) as usize);
    }
@at loop1.begin
    let ghost a0 = ans;
    proof {
        lemma_val_bound(false, r0.take(i as int));
    }
@at loop1.end
    proof {
        assert(r0.skip(i as int).skip(1) =~= r0.skip(i as int + 1));
        assert(r0.take(i as int + 1) =~= r0.take(i as int).push(r0[i as int]));
        lemma_val_lsb_push(r0.take(i as int), r0[i as int]);
        lemma_or_bit(a0, b2n(r0[i as int]) as usize, i as usize);
    }
@at before "self.count += 1"
    proof { lemma_val_bound(msb, r0.take(num_bits as int)); }

@fn lzw::Link::root
@ret r
@contract
    ensures r.code == code, r.sym == usize::MAX,
@fn lzw::Link::create
@ret r
@contract
    ensures r.code == code, r.sym == sym,
@fn lzw::Link::hash
@ret r
@contract
    ensures r == (self.code, self.sym),
