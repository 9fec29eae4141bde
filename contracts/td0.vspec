## td0
@fn td0::crc16
@ret r
@contract
    ensures r as int == crc_spec(crc_seed as int, buf@),
@loop 0
    invariant
        crc as int == crc_spec(crc_seed as int, buf@.take(i as int)),
@loop 1
    invariant
        0 <= i < buf@.len(),
        crc as int == crc_bits(xor16(crc_spec(crc_seed as int, buf@.take(i as int)), buf@[i as int] as int * 256), _bit as nat),
@at loop0.begin
    let ghost crc0 = crc;
    proof {
        let b = buf@[i as int];
        assert(crc0 ^ ((b as u16) << 8) == crc0 ^ ((b as int * 256) as u16)) by {
            assert((b as u16) << 8 == (b as u16) * 256) by (bit_vector);
        }
    }
@at loop1.begin
    proof { lemma_crc_bit(crc); }
@at loop0.end
    proof {
        assert(buf@.take(i as int + 1).drop_last() =~= buf@.take(i as int));
    }
@at end
    proof { assert(buf@.take(buf@.len() as int) =~= buf@); }

@module td0
pub proof fn lemma_crc_bit(c: u16)
    ensures
        ((c << 1) ^ (if c & 0x8000 == 0 { 0u16 } else { 0xa097u16 })) as int == crc_bit(c as int),
{
    assert(c & 0x8000 == 0 <==> c < 0x8000) by (bit_vector);
    assert(c < 0x8000 ==> (c << 1) == 2 * c) by (bit_vector);
    assert((c << 1) == ((2 * (c as u32)) % 0x10000) as u16) by (bit_vector);
    assert((c << 1) ^ 0 == (c << 1)) by (bit_vector);
}

@fn td0::compress
@ret r
@contract
    requires
        old(expanded_in).pos() == 0,
        old(compressed_out).pos() == 0,
    ensures
        /*C10*/ td_valid(old(expanded_in).data(), 84, 68) && old(expanded_in).data().len() - 12 > 3_000_000 ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> old(expanded_in).data().len() - 12 > 3_000_000,
        /*C10*/ r matches Ok((n, m)) ==> n == old(expanded_in).data().len(),
        /*C10*/ r matches Ok((n, m)) ==> (m > 0 && old(compressed_out).data().len() == 0 ==> final(compressed_out).data().len() == m),
        /*C11*/ r matches Ok((n, m)) ==> final(compressed_out).data().len() == old(compressed_out).data().len() || final(compressed_out).data().len() == m,
        /*C09*/ td_valid(old(expanded_in).data(), 84, 68) ==> (r matches Err(e) ==> is_fault(e) || is_lib(e, crate::Error::FileTooLarge)),
        /*C14*/ r is Ok ==> final(expanded_in).failed() == old(expanded_in).failed() && final(compressed_out).failed() == old(compressed_out).failed(),
        /*FN*/ r matches Ok((a, b)) ==> ({ let s = td_encode(old(expanded_in).data()); b == s.len() && placed(old(compressed_out).data(), 0, s, final(compressed_out).data()) }),
        ({
            let d = old(expanded_in).data();
            let x = d.skip(12);
            let h = td_new_header(d, 116, 100);
            match r {
                Ok((a, b)) => td_valid(d, 84, 68) && x.len() <= 3_000_000 && a == d.len() && {
                    if d[4] < 20 {
                        b == 12 + lzw_encode(x, crate::td0::TD_V1_OPTIONS).len()
                            && placed(old(compressed_out).data(), 0, h + lzw_encode(x, crate::td0::TD_V1_OPTIONS), final(compressed_out).data())
                    } else {
                        exists|s: Seq<u8>| #[trigger] lzhuf_encodes(x, s, crate::td0::TD_V2_OPTIONS)
                            && b == 12 + s.len() && placed(old(compressed_out).data(), 0, h + s, final(compressed_out).data())
                    }
                },
                Err(e) => {
                    // nothing was written, unless the header was good
                    ||| is_fault(e) && (td_valid(d, 84, 68) || final(compressed_out).data() == old(compressed_out).data())
                    ||| is_eof(e) && d.len() < 12 && final(compressed_out).data() == old(compressed_out).data()
                    ||| is_lib(e, crate::Error::FileFormatMismatch) && d.len() >= 12 && !(d[0] == 84 && d[1] == 68)
                            && final(compressed_out).data() == old(compressed_out).data()
                    ||| is_lib(e, crate::Error::BadChecksum) && d.len() >= 12 && !td_valid(d, 84, 68)
                            && final(compressed_out).data() == old(compressed_out).data()
                    ||| is_lib(e, crate::Error::FileTooLarge) && td_valid(d, 84, 68) && x.len() > 3_000_000
                            && final(compressed_out).data() == wr(old(compressed_out).data(), 0, h)
                    ||| false
                },
            }
        }),
@at start
    broadcast use lemma_wr_shape;
@at after "expanded_in.read_exact"
    let ghost hdr0 = td_header@;
    proof { lemma_header_prefix(old(expanded_in).data(), hdr0); }
@at before "let crc =" #1
    let ghost hdr1 = td_header@;
@at before "if td_header[4]"
    proof { lemma_new_header(old(expanded_in).data(), hdr0, hdr1, td_header@, 116, 100); }
@at after "let (in_size,out_size) ="
    proof {
        let x = old(expanded_in).data().skip(12);
        lemma_joined(old(compressed_out).data(), td_header@, lzw_encode(x, TD_V1_OPTIONS), compressed_out.data());
    }
@at after "let (in_size,out_size) =" #1
    proof {
        let x = old(expanded_in).data().skip(12);
        let s = choose|s: Seq<u8>| #[trigger] lzhuf_encodes(x, s, TD_V2_OPTIONS) && out_size == s.len()
            && placed(wr(old(compressed_out).data(), 0, td_header@), 12, s, compressed_out.data());
        lemma_joined(old(compressed_out).data(), td_header@, s, compressed_out.data());
        lemma_joined(old(compressed_out).data(), td_header@, lzss_encode(x, TD_V2_OPTIONS), compressed_out.data()); /*FN*/
    }

@fn td0::expand
@ret r
@contract
    requires
        old(compressed_in).pos() == 0,
        old(expanded_out).pos() == 0,
    ensures
        /*C10*/ td_valid(old(compressed_in).data(), 116, 100) && old(compressed_in).data().len() - 12 > 3_000_000 ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> old(compressed_in).data().len() - 12 > 3_000_000,
        /*C10*/ r matches Ok((n, m)) ==> n == old(compressed_in).data().len(),
        /*C10*/ r matches Ok((n, m)) ==> (m > 0 && old(expanded_out).data().len() == 0 ==> final(expanded_out).data().len() == m),
        /*C11*/ r matches Ok((n, m)) ==> final(expanded_out).data().len() == old(expanded_out).data().len() || final(expanded_out).data().len() == m,
        /*C14*/ r is Ok ==> final(compressed_in).failed() == old(compressed_in).failed() && final(expanded_out).failed() == old(expanded_out).failed(),
        ({
            let d = old(compressed_in).data();
            let x = d.skip(12);
            let h = td_new_header(d, 84, 68);
            match r {
                Ok((a, b)) => td_valid(d, 116, 100) && x.len() <= 3_000_000 && a == d.len() && {
                    if d[4] < 20 {
                        lzw_decode(x, crate::td0::TD_V1_OPTIONS) matches Some(s)
                            && b == 12 + s.len() && placed(old(expanded_out).data(), 0, h + s, final(expanded_out).data())
                    } else {
                        lzhuf_decode(x, crate::td0::TD_V2_OPTIONS) matches Some(s)
                            && b == 12 + s.len() && placed(old(expanded_out).data(), 0, h + s, final(expanded_out).data())
                    }
                },
                Err(e) => {
                    // nothing was written, unless the header was good
                    ||| is_fault(e) && (td_valid(d, 116, 100) || final(expanded_out).data() == old(expanded_out).data())
                    ||| is_eof(e) && d.len() < 12 && final(expanded_out).data() == old(expanded_out).data()
                    ||| is_lib(e, crate::Error::FileFormatMismatch) && d.len() >= 12 && !(d[0] == 116 && d[1] == 100)
                            && final(expanded_out).data() == old(expanded_out).data()
                    ||| is_lib(e, crate::Error::BadChecksum) && d.len() >= 12 && !td_valid(d, 116, 100)
                            && final(expanded_out).data() == old(expanded_out).data()
                    ||| is_lib(e, crate::Error::FileTooLarge) && td_valid(d, 116, 100) && x.len() > 3_000_000
                            && final(expanded_out).data() == wr(old(expanded_out).data(), 0, h)
                    ||| td_valid(d, 116, 100) && d[4] < 20 && is_lib(e, crate::Error::FileFormatMismatch)
                        && lzw_decode(d.skip(12), crate::td0::TD_V1_OPTIONS) is None && x.len() <= 3_000_000
                },
            }
        }),
@at start
    broadcast use lemma_wr_shape;
@at after "compressed_in.read_exact"
    let ghost hdr0 = td_header@;
    proof { lemma_header_prefix(old(compressed_in).data(), hdr0); }
@at before "let crc =" #1
    let ghost hdr1 = td_header@;
@at before "if td_header[4]"
    proof { lemma_new_header(old(compressed_in).data(), hdr0, hdr1, td_header@, 84, 68); }
@at after "let (in_size,out_size) ="
    proof {
        let x = old(compressed_in).data().skip(12);
        lemma_joined(old(expanded_out).data(), td_header@, lzw_decode(x, TD_V1_OPTIONS)->Some_0, expanded_out.data());
    }
@at after "let (in_size,out_size) =" #1
    proof {
        let x = old(compressed_in).data().skip(12);
        lemma_joined(old(expanded_out).data(), td_header@, lzhuf_decode(x, TD_V2_OPTIONS)->Some_0, expanded_out.data());
    }

@module td0
pub proof fn lemma_header_prefix(d: Seq<u8>, h: Seq<u8>)
    requires d.len() >= 12, h == d.subrange(0, 12),
    ensures
        h[0] == d[0], h[1] == d[1],
        d.subrange(10, 12) == h.subrange(10, 12),
        td_crc(d) == td_crc(h),
        h.subrange(0, 2) == d.subrange(0, 2),
        forall|a: u8, b: u8| #[trigger] seq![a, b] == d.subrange(0, 2) <==> a == d[0] && b == d[1],
{
    assert(d.subrange(10, 12) =~= h.subrange(10, 12));
    assert(h.subrange(0, 10) =~= d.subrange(0, 10));
    assert(h.subrange(0, 2) =~= d.subrange(0, 2));
    assert forall|a: u8, b: u8| #[trigger] seq![a, b] == d.subrange(0, 2) <==> a == d[0] && b == d[1] by {
        if a == d[0] && b == d[1] { assert(seq![a, b] =~= d.subrange(0, 2)); }
        if seq![a, b] == d.subrange(0, 2) { assert(seq![a, b][0] == d.subrange(0, 2)[0]); assert(seq![a, b][1] == d.subrange(0, 2)[1]); }
    }
}
pub proof fn lemma_le2(x: nat)
    ensures le_bytes(x, 2).len() == 2, le_bytes(x, 4).len() == 4
{
    reveal_with_fuel(le_bytes, 5);
}
pub proof fn lemma_new_header(d: Seq<u8>, h0: Seq<u8>, a: Seq<u8>, h1: Seq<u8>, s0: u8, s1: u8)
    requires
        d.len() >= 12, h0 == d.subrange(0, 12),
        a == h0.subrange(0, 0) + seq![s0, s1] + h0.subrange(2, 12),
        h1 == a.subrange(0, 10) + le_bytes(crc_spec(0, a.subrange(0, 10)) as nat, 2) + a.subrange(12, 12),
    ensures
        h1 == td_new_header(d, s0, s1), h1[4] == d[4], h1.len() == 12,
{
    lemma_le2(crc_spec(0, a.subrange(0, 10)) as nat);
    let h = seq![s0, s1] + d.subrange(2, 10);
    assert(h =~= a.subrange(0, 10));
    assert(h.subrange(0, 10) =~= h);
    assert(h1 =~= h + td_crc(h));
}
/// a body placed behind a header written at the start of the stream
pub proof fn lemma_joined(d0: Seq<u8>, h: Seq<u8>, s: Seq<u8>, d2: Seq<u8>)
    requires h.len() == 12, placed(wr(d0, 0, h), 12, s, d2),
    ensures placed(d0, 0, h + s, d2),
{
    reveal(wr);
    assert(d2 =~= wr(d0, 0, h + s));
}

@fn td0::compress_slice
@ret r
@contract
    ensures
        /*C10*/ td_valid(slice@, 84, 68) && slice@.len() - 12 > 3_000_000 ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> slice@.len() - 12 > 3_000_000,
        ({
            let d = slice@;
            let x = d.skip(12);
            let h = td_new_header(d, 116, 100);
            match r {
                Ok(v) => td_valid(d, 84, 68) && x.len() <= 3_000_000 && {
                    if d[4] < 20 { v@ == h + lzw_encode(x, TD_V1_OPTIONS) } else {
                        exists|s: Seq<u8>| #[trigger] lzhuf_encodes(x, s, TD_V2_OPTIONS) && v@ == h + s
                    }
                },
                Err(e) => {
                    ||| is_fault(e)
                    ||| is_eof(e) && d.len() < 12
                    ||| is_lib(e, crate::Error::FileFormatMismatch) && d.len() >= 12 && !(d[0] == 84 && d[1] == 68)
                    ||| is_lib(e, crate::Error::BadChecksum) && d.len() >= 12 && !td_valid(d, 84, 68)
                    ||| is_lib(e, crate::Error::FileTooLarge) && td_valid(d, 84, 68) && x.len() > 3_000_000
                },
            }
        }),
@at end
    proof {
        let x = slice@.skip(12);
        let h = td_new_header(slice@, 116, 100);
        if slice@[4] < 20 { lemma_placed_all(h + lzw_encode(x, TD_V1_OPTIONS), ans.inner@); } else {
            let s = choose|s: Seq<u8>| #[trigger] lzhuf_encodes(x, s, TD_V2_OPTIONS) && placed(Seq::empty(), 0, h + s, ans.inner@);
            lemma_placed_all(h + s, ans.inner@);
        }
    }

@fn td0::expand_slice
@ret r
@contract
    ensures
        /*C10*/ td_valid(slice@, 116, 100) && slice@.len() - 12 > 3_000_000 ==> (r matches Err(e) && (is_fault(e) || is_lib(e, crate::Error::FileTooLarge))),
        /*C10*/ r matches Err(e) && is_lib(e, crate::Error::FileTooLarge) ==> slice@.len() - 12 > 3_000_000,
        ({
            let d = slice@;
            let x = d.skip(12);
            let h = td_new_header(d, 84, 68);
            match r {
                Ok(v) => td_valid(d, 116, 100) && x.len() <= 3_000_000 && {
                    if d[4] < 20 {
                        lzw_decode(x, TD_V1_OPTIONS) matches Some(s) && v@ == h + s
                    } else {
                        lzhuf_decode(x, TD_V2_OPTIONS) matches Some(s) && v@ == h + s
                    }
                },
                Err(e) => {
                    ||| is_fault(e)
                    ||| is_eof(e) && d.len() < 12
                    ||| is_lib(e, crate::Error::FileFormatMismatch) && d.len() >= 12 && !(d[0] == 116 && d[1] == 100)
                    ||| is_lib(e, crate::Error::BadChecksum) && d.len() >= 12 && !td_valid(d, 116, 100)
                    ||| is_lib(e, crate::Error::FileTooLarge) && td_valid(d, 116, 100) && x.len() > 3_000_000
                    ||| td_valid(d, 116, 100) && d[4] < 20 && is_lib(e, crate::Error::FileFormatMismatch)
                        && lzw_decode(x, TD_V1_OPTIONS) is None && x.len() <= 3_000_000
                },
            }
        }),
@at end
    proof {
        let x = slice@.skip(12);
        let h = td_new_header(slice@, 84, 68);
        if slice@[4] < 20 { lemma_placed_all(h + lzw_decode(x, TD_V1_OPTIONS)->0, ans.inner@); }
        else { lemma_placed_all(h + lzhuf_decode(x, TD_V2_OPTIONS)->0, ans.inner@); }
    }
@module td0
/// what a valid normal image is converted to
pub open spec fn td_encode(d: Seq<u8>) -> Seq<u8> {
    td_new_header(d, 116, 100) + (if d[4] < 20 { lzw_encode(d.skip(12), TD_V1_OPTIONS) } else { lzss_encode(d.skip(12), TD_V2_OPTIONS) })
}
/// what a valid advanced image is converted to
pub open spec fn td_decode(d: Seq<u8>) -> Option<Seq<u8>> {
    match (if d[4] < 20 { lzw_decode(d.skip(12), TD_V1_OPTIONS) } else { lzhuf_decode(d.skip(12), TD_V2_OPTIONS) }) {
        Some(s) => Some(td_new_header(d, 84, 68) + s),
        None => None,
    }
}
/// C11: what the target held before does not matter
pub fn client_same_compress<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, c: &mut Q, e: &mut V)
    requires old(a).pos() == 0, old(b).pos() == 0, old(c).pos() == 0, old(e).pos() == 0, old(a).data() == old(c).data(), io_works()
{
    let ghost d = a.data();
    let ghost (b0, e0) = (b.data(), e.data());
    let r = compress(a, b);
    let q = compress(c, e);
    assert(r is Ok == q is Ok);
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m == l); /*FN*/
        if m > 0 {
            proof {
                lemma_placed_range(b0, 0, td_encode(d), b.data()); /*FN*/
                lemma_placed_range(e0, 0, td_encode(d), e.data()); /*FN*/
            }
            assert(b.data().subrange(0, m as int) == e.data().subrange(0, m as int)); /*FN*/
        }
    }
}
pub fn client_same_expand<R: Read + Seek, W: Write + Seek, Q: Read + Seek, V: Write + Seek>(a: &mut R, b: &mut W, c: &mut Q, e: &mut V)
    requires old(a).pos() == 0, old(b).pos() == 0, old(c).pos() == 0, old(e).pos() == 0, old(a).data() == old(c).data(), io_works()
{
    let ghost d = a.data();
    let ghost (b0, e0) = (b.data(), e.data());
    let r = expand(a, b);
    let q = expand(c, e);
    assert(r is Ok == q is Ok);
    if let (Ok((n, m)), Ok((k, l))) = (r, q) {
        assert(n == k && m == l);
        if m > 0 {
            proof {
                let s = td_new_header(d, 84, 68) + (if d[4] < 20 { lzw_decode(d.skip(12), TD_V1_OPTIONS)->0 } else { lzhuf_decode(d.skip(12), TD_V2_OPTIONS)->0 });
                lemma_le2(0); lemma_new_header_len(d, 84, 68);
                lemma_placed_range(b0, 0, s, b.data());
                lemma_placed_range(e0, 0, s, e.data());
            }
            assert(b.data().subrange(0, m as int) == e.data().subrange(0, m as int));
        }
    }
}
pub proof fn lemma_new_header_len(d: Seq<u8>, s0: u8, s1: u8)
    requires d.len() >= 12
    ensures td_new_header(d, s0, s1).len() == 12
{
    lemma_le2(crc_spec(0, (seq![s0, s1] + d.subrange(2, 10)).subrange(0, 10)) as nat);
}
/// C07: there and back
pub fn client_round_trip(x: &[u8])
    requires td_valid(x@, 84, 68)
{
    proof { lemma_header_again(x@); lemma_v1_lossless(); }
    match compress_slice(x) {
        Ok(v) => {
            let ghost z = x@.skip(12);
            let ghost s = v@.skip(12);
            proof {
                let h = td_new_header(x@, 116, 100);
                assert((h + s).subrange(0, 12) =~= h);
                if x@[4] < 20 {
                    assert(v@.skip(12) =~= lzw_encode(z, TD_V1_OPTIONS));
                    lemma_lzw_lossless(z, TD_V1_OPTIONS);
                } else {
                    let s1 = choose|s: Seq<u8>| #[trigger] lzhuf_encodes(z, s, TD_V2_OPTIONS) && v@ == h + s;
                    assert(v@.skip(12) =~= s1);
                    lemma_lzhuf_tail(z, s1, TD_V2_OPTIONS);
                }
                assert(v@ =~= h + s);
                lemma_header_of(h, s, 116, 100);
                assert(td_new_header(v@, 84, 68) == x@.subrange(0, 12));
                assert(x@ =~= x@.subrange(0, 12) + z);
            }
            match expand_slice(v.as_slice()) {
                Ok(y) => {
                    assert(x@[4] < 20 ==> y@ == x@);
                    assert(x@.len() <= y@.len() <= x@.len() + 7);
                    proof {
                        let w = y@.skip(12);
                        assert(y@ =~= x@.subrange(0, 12) + w);
                        assert(y@.take(x@.len() as int) =~= x@.subrange(0, 12) + w.take(z.len() as int));
                    }
                    assert(y@.take(x@.len() as int) == x@);
                }
                Err(e) => { assert(is_fault(e) || v@.len() > 12 + 3_000_000); }
            }
        }
        Err(e) => { assert(is_fault(e) || x@.len() > 12 + 3_000_000); }
    }
}
/// C09: every image with a valid header is accepted, on streams that work
pub fn client_accepts<R: Read + Seek, W: Write + Seek>(a: &mut R, b: &mut W)
    requires old(a).pos() == 0, old(b).pos() == 0, td_valid(old(a).data(), 84, 68), old(a).data().len() <= 12 + 3_000_000, io_works()
{
    let r = compress(a, b);
    assert(r is Ok);
}
pub proof fn lemma_v1_lossless()
    ensures lzw_lossless(TD_V1_OPTIONS), lzss_opts_ok(TD_V2_OPTIONS), !TD_V2_OPTIONS.header
{
    lemma_pow2_values();
    assert(pow2(12) == 4096) by(compute_only);
}
/// a header with its checksum is a valid header, whatever follows it
pub proof fn lemma_header_of(h: Seq<u8>, s: Seq<u8>, s0: u8, s1: u8)
    requires h.len() == 12, td_valid(h, s0, s1)
    ensures td_valid(h + s, s0, s1), forall|a: u8, b: u8| td_new_header(h + s, a, b) == #[trigger] td_new_header(h, a, b), (h + s)[4] == h[4]
{
    let d = h + s;
    assert(d.subrange(0, 10) =~= h.subrange(0, 10));
    assert(d.subrange(10, 12) =~= h.subrange(10, 12));
    assert(d.subrange(2, 10) =~= h.subrange(2, 10));
}
/// the signature exchanged twice
pub proof fn lemma_header_again(d: Seq<u8>)
    requires td_valid(d, 84, 68)
    ensures ({
        let h = td_new_header(d, 116, 100);
        h.len() == 12 && td_valid(h, 116, 100) && td_new_header(h, 84, 68) == d.subrange(0, 12) && h[4] == d[4]
    })
{
    let h = td_new_header(d, 116, 100);
    let a = seq![116u8, 100u8] + d.subrange(2, 10);
    lemma_le2(crc_spec(0, a.subrange(0, 10)) as nat);
    assert(h.subrange(0, 10) =~= a);
    assert(a.subrange(0, 10) =~= a);
    assert(h.subrange(10, 12) =~= td_crc(a));
    assert(h.subrange(2, 10) =~= d.subrange(2, 10));
    let g = seq![84u8, 68u8] + h.subrange(2, 10);
    assert(g =~= d.subrange(0, 10));
    assert(g.subrange(0, 10) =~= d.subrange(0, 10));
    assert(g + td_crc(g) =~= d.subrange(0, 12));
}
@end
