## the dictionary of lzw.rs
@fn lzw::LZW::create
@ret r
@contract
    requires lzw_opts_ok(opt),
    ensures r.opt == opt, dict_new(r.dictionary@), r.curr_code is None, r.curr_match is None,
@loop 0
    invariant
        lzw_opts_ok(opt), lzw.opt == opt, lzw.curr_code is None, lzw.curr_match is None,
        forall|a: usize, s: usize| #[trigger] lzw.dictionary@.contains_key((a, s)) ==> s == usize::MAX && a < i,
        forall|a: usize, s: usize| s == usize::MAX && a < i ==> #[trigger] lzw.dictionary@.contains_key((a, s)) && lzw.dictionary@[(a, s)].code == a && lzw.dictionary@[(a, s)].sym == a,
@at loop0.begin
    let ghost d0 = lzw.dictionary@;
@at loop0.end
    proof {
        let d1 = lzw.dictionary@;
        assert(d1 == d0.insert((i, usize::MAX), d1[(i, usize::MAX)]));
        assert forall|a: usize, s: usize| #[trigger] d1.contains_key((a, s)) implies s == usize::MAX && a < i + 1 by {
            if (a, s) != (i, usize::MAX) { assert(d0.contains_key((a, s))); }
        }
    }

@fn lzw::LZW::get_string
@ret r
@contract
    requires
        exists|cur: int| dict_dec(self.dictionary@, cur),
        self.dictionary@.contains_key((code, usize::MAX)),
        self.opt.min_symbol == 0, self.opt.max_symbol == 255,
    ensures
        r@ == str_of(self.dictionary@, code),
@at start
    let ghost code0 = code;
    let ghost cur = choose|cur: int| dict_dec(self.dictionary@, cur);
    proof { reveal(dict_dec); assert(str_of(self.dictionary@, code0) + Seq::<u8>::empty().reverse() =~= str_of(self.dictionary@, code0)); }
@loop 0
    invariant_except_break
        self.dictionary@.contains_key((code, usize::MAX)),
        str_of(self.dictionary@, code) + rev@.reverse() == str_of(self.dictionary@, code0),
    invariant
        dict_dec(self.dictionary@, cur),
        self.opt.min_symbol == 0, self.opt.max_symbol == 255,
    ensures
        rev@.reverse() == str_of(self.dictionary@, code0),
    decreases code,
@at loop0.begin
    let ghost rev0 = rev@;
@at before "if val.sym == val.code"
    proof {
        reveal(dict_dec);
        assert(rev@.reverse() =~= seq![val.sym as u8] + rev0.reverse());
        if code > 255 {
            let s = str_of(self.dictionary@, val.code);
            assert(s.push(val.sym as u8) + rev0.reverse() =~= s + (seq![val.sym as u8] + rev0.reverse()));
        }
    }

@fn lzw::LZW::advance_code
@ret r
@contract
    requires
        lzw_opts_ok(old(self).opt),
        cur_of(old(self).curr_code) <= lzw_max(old(self).opt),
    ensures
        final(self).opt == old(self).opt,
        final(self).dictionary == old(self).dictionary,
        final(self).curr_match == old(self).curr_match,
        cur_of(final(self).curr_code) == adv_cur(old(self).opt, cur_of(old(self).curr_code)),
        final(self).curr_code is Some,
        match r {
            Some(n) => adv_code(old(self).opt, cur_of(old(self).curr_code)) == Some(n as int),
            None => adv_code(old(self).opt, cur_of(old(self).curr_code)) is None,
        },
@at start
    let ghost o = self.opt;
    let ghost n0 = cur_of(self.curr_code) + 1;
    proof {
        lemma_shl_one(o.max_code_width);
        lemma_pow2_mono(9, o.max_code_width as nat);
        lemma_pow2_mono(o.max_code_width as nat, 16);
        lemma_pow2_values();
        lemma_first_free(o, n0);
    }
@loop 0
    invariant
        o == self.opt, *self == *old(self), lzw_opts_ok(o),
        max_code == lzw_max(o), 511 <= max_code <= 65535,
        n0 <= new_code <= 65540,
        first_free(o, new_code as int) == first_free(o, n0),
        new_code <= first_free(o, n0) <= 65540,
    ensures
        new_code == first_free(o, n0),
    decreases 65540 - new_code,
@at loop0.begin
    proof {
        lemma_first_free(o, new_code as int);
        lemma_first_free(o, new_code + 1);
        lemma_first_free(o, new_code + 2);
    }

@fn lzw::LZW::check_match
@ret r
@contract
    requires
        lzw_opts_ok(old(self).opt),
        dict_enc(old(self).dictionary@),
        match_ok(old(self).dictionary@, old(self).curr_match),
        cur_of(old(self).curr_code) <= lzw_max(old(self).opt),
        next_sym <= 255,
    ensures
        final(self).opt == old(self).opt,
        dict_enc(final(self).dictionary@),
        match_ok(final(self).dictionary@, final(self).curr_match),
        final(self).curr_match is Some,
        ({
            let o = old(self).opt;
            let t = trie(old(self).dictionary@);
            let cur = cur_of(old(self).curr_code);
            let m1 = match_code(final(self).dictionary@, final(self).curr_match);
            match match_code(old(self).dictionary@, old(self).curr_match) {
                None => r == Some(true) && m1 == Some(next_sym as int) && final(self).dictionary == old(self).dictionary && final(self).curr_code == old(self).curr_code,
                Some(c) => if t.contains_key((c, next_sym as u8)) {
                    r == Some(true) && m1 == Some(t[(c, next_sym as u8)]) && final(self).dictionary == old(self).dictionary && final(self).curr_code == old(self).curr_code
                } else {
                    &&& (r == Some(false) || r is None)
                    &&& m1 == Some(c)
                    &&& trie(final(self).dictionary@) == trie_add(o, t, cur, c, next_sym as u8)
                    &&& cur_of(final(self).curr_code) == adv_cur(o, cur)
                },
            }
        }),
@at start
    proof {
        if self.curr_match is Some {
            let l = self.curr_match->0;
            let c = self.dictionary@[(l.code, l.sym)].code;
            if adv_code(self.opt, cur_of(self.curr_code)) is Some {
                let n = adv_code(self.opt, cur_of(self.curr_code))->0;
                lemma_trie_insert(self.dictionary@, c, next_sym, crate::lzw::Link { code: n as usize, sym: 0 });
            }
            assert(trie(self.dictionary@).contains_key((c as int, next_sym as u8)) == trie_has(self.dictionary@, (c as int, next_sym as u8)));
        } else {
            assert(self.dictionary@.contains_key((next_sym, usize::MAX)));
        }
    }
