// ---------------------------------------------------------------- bit strings and numbers

pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
pub open spec fn val_msb(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 2 * val_msb(s.drop_last()) + b2n(s.last()) }
}
pub open spec fn val_lsb(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { b2n(s[0]) + 2 * val_lsb(s.skip(1)) }
}
/// the low n bits of v, most significant first
pub open spec fn bits_msb(v: nat, n: nat) -> Seq<bool>
    decreases n
{
    if n == 0 { Seq::empty() } else { bits_msb(v / 2, (n - 1) as nat).push(v % 2 == 1) }
}
/// the low n bits of v, least significant first
pub open spec fn bits_lsb(v: nat, n: nat) -> Seq<bool>
    decreases n
{
    if n == 0 { Seq::empty() } else { seq![v % 2 == 1] + bits_lsb(v / 2, (n - 1) as nat) }
}
pub open spec fn bits_of(msb: bool, v: nat, n: nat) -> Seq<bool> { if msb { bits_msb(v, n) } else { bits_lsb(v, n) } }
pub open spec fn val_of(msb: bool, s: Seq<bool>) -> nat { if msb { val_msb(s) } else { val_lsb(s) } }
pub open spec fn pack(msb: bool, s: Seq<bool>) -> Seq<u8> { if msb { pack_msb(s) } else { pack_lsb(s) } }
pub open spec fn unpack(msb: bool, s: Seq<u8>) -> Seq<bool> { if msb { unpack_msb(s) } else { unpack_lsb(s) } }

pub proof fn lemma_bits_len(msb: bool, v: nat, n: nat)
    ensures bits_of(msb, v, n).len() == n
    decreases n
{
    if n > 0 { lemma_bits_len(msb, v / 2, (n - 1) as nat); }
}
pub proof fn lemma_bits_val(msb: bool, v: nat, n: nat)
    requires v < pow2(n)
    ensures bits_of(msb, v, n).len() == n, val_of(msb, bits_of(msb, v, n)) == v
    decreases n
{
    lemma_bits_len(msb, v, n);
    if n > 0 {
        lemma_bits_val(msb, v / 2, (n - 1) as nat);
        let s = bits_of(msb, v, n);
        if msb {
            assert(s.drop_last() =~= bits_msb(v / 2, (n - 1) as nat));
        } else {
            assert(s.skip(1) =~= bits_lsb(v / 2, (n - 1) as nat));
        }
    }
}
pub proof fn lemma_val_bound(msb: bool, s: Seq<bool>)
    ensures val_of(msb, s) < pow2(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        if msb { lemma_val_bound(msb, s.drop_last()); } else { lemma_val_bound(msb, s.skip(1)); }
    }
}
pub proof fn lemma_val_lsb_push(s: Seq<bool>, b: bool)
    ensures val_lsb(s.push(b)) == val_lsb(s) + b2n(b) * pow2(s.len())
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(b).skip(1) =~= Seq::<bool>::empty());
        assert(s.push(b)[0] == b && s.push(b).len() == 1);
        assert(val_lsb(Seq::<bool>::empty()) == 0);
        assert(pow2(0) == 1);
        assert(b2n(b) * pow2(0) == b2n(b)) by(nonlinear_arith) requires pow2(0) == 1;
    } else {
        lemma_val_lsb_push(s.skip(1), b);
        assert(s.push(b).skip(1) =~= s.skip(1).push(b));
        assert(pow2(s.len()) == 2 * pow2((s.len() - 1) as nat));
        assert(b2n(b) * pow2(s.len()) == 2 * (b2n(b) * pow2((s.len() - 1) as nat))) by(nonlinear_arith)
            requires pow2(s.len()) == 2 * pow2((s.len() - 1) as nat);
    }
}
pub proof fn lemma_val_msb_push(s: Seq<bool>, b: bool)
    ensures val_msb(s.push(b)) == 2 * val_msb(s) + b2n(b)
{
    assert(s.push(b).drop_last() =~= s);
}
pub proof fn lemma_pow2_pos(n: nat)
    ensures pow2(n) >= 1
    decreases n
{
    if n > 0 { lemma_pow2_pos((n - 1) as nat); }
}
pub proof fn lemma_pow2_mono(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b)
    decreases b
{
    if a < b { lemma_pow2_mono(a, (b - 1) as nat); }
}
pub proof fn lemma_pow2_add(a: nat, b: nat)
    ensures pow2(a + b) == pow2(a) * pow2(b)
    decreases a
{
    if a > 0 {
        lemma_pow2_add((a - 1) as nat, b);
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        assert(pow2(a + b) == 2 * pow2((a + b - 1) as nat));
        assert(pow2(a) == 2 * pow2((a - 1) as nat));
        assert(pow2(a) * pow2(b) == 2 * (pow2((a - 1) as nat) * pow2(b))) by(nonlinear_arith) requires pow2(a) == 2 * pow2((a - 1) as nat);
    } else {
        assert(pow2(a) * pow2(b) == pow2(b)) by(nonlinear_arith) requires pow2(a) == 1;
    }
}
pub proof fn lemma_pow2_values()
    ensures pow2(0) == 1, pow2(1) == 2, pow2(2) == 4, pow2(3) == 8, pow2(4) == 16, pow2(5) == 32, pow2(6) == 64, pow2(7) == 128, pow2(8) == 256,
        pow2(9) == 512, pow2(16) == 65536, pow2(32) == 0x1_0000_0000
{
    assert(pow2(0) == 1 && pow2(1) == 2 && pow2(2) == 4 && pow2(3) == 8 && pow2(4) == 16 && pow2(5) == 32 && pow2(6) == 64
        && pow2(7) == 128 && pow2(8) == 256 && pow2(9) == 512 && pow2(16) == 65536 && pow2(32) == 0x1_0000_0000) by(compute_only);
}

// ---------------------------------------------------------------- bytes and bits

pub proof fn lemma_byte_bits(s: Seq<bool>, i: int, j: int)
    requires 0 <= i, 0 <= j < 8
    ensures
        msb_bit(byte_msb(s, i), j) == (bit_at(s, i + j) == 1),
        lsb_bit(byte_lsb(s, i), j) == (bit_at(s, i + j) == 1),
{
    lemma_pow2_values();
    let b0 = bit_at(s, i); let b1 = bit_at(s, i + 1); let b2 = bit_at(s, i + 2); let b3 = bit_at(s, i + 3);
    let b4 = bit_at(s, i + 4); let b5 = bit_at(s, i + 5); let b6 = bit_at(s, i + 6); let b7 = bit_at(s, i + 7);
    let m = 128 * b0 + 64 * b1 + 32 * b2 + 16 * b3 + 8 * b4 + 4 * b5 + 2 * b6 + b7;
    let l = b0 + 2 * b1 + 4 * b2 + 8 * b3 + 16 * b4 + 32 * b5 + 64 * b6 + 128 * b7;
    assert(byte_msb(s, i) as int == m && byte_lsb(s, i) as int == l);
    if j == 0 {
        assert(i + j == i + 0);
        assert(pow2((7 - j) as nat) == 128 && pow2(j as nat) == 1);
        assert(m / 128 == 1 * b0);
        assert(m / 128 == 2 * (0) + b0);
        assert(l / 1 == 1 * b0 + 2 * b1 + 4 * b2 + 8 * b3 + 16 * b4 + 32 * b5 + 64 * b6 + 128 * b7);
        assert(l / 1 == 2 * (1 * b1 + 2 * b2 + 4 * b3 + 8 * b4 + 16 * b5 + 32 * b6 + 64 * b7) + b0);
    }
    else if j == 1 {
        assert(i + j == i + 1);
        assert(pow2((7 - j) as nat) == 64 && pow2(j as nat) == 2);
        assert(m / 64 == 2 * b0 + 1 * b1);
        assert(m / 64 == 2 * (1 * b0) + b1);
        assert(l / 2 == 1 * b1 + 2 * b2 + 4 * b3 + 8 * b4 + 16 * b5 + 32 * b6 + 64 * b7);
        assert(l / 2 == 2 * (1 * b2 + 2 * b3 + 4 * b4 + 8 * b5 + 16 * b6 + 32 * b7) + b1);
    }
    else if j == 2 {
        assert(i + j == i + 2);
        assert(pow2((7 - j) as nat) == 32 && pow2(j as nat) == 4);
        assert(m / 32 == 4 * b0 + 2 * b1 + 1 * b2);
        assert(m / 32 == 2 * (2 * b0 + 1 * b1) + b2);
        assert(l / 4 == 1 * b2 + 2 * b3 + 4 * b4 + 8 * b5 + 16 * b6 + 32 * b7);
        assert(l / 4 == 2 * (1 * b3 + 2 * b4 + 4 * b5 + 8 * b6 + 16 * b7) + b2);
    }
    else if j == 3 {
        assert(i + j == i + 3);
        assert(pow2((7 - j) as nat) == 16 && pow2(j as nat) == 8);
        assert(m / 16 == 8 * b0 + 4 * b1 + 2 * b2 + 1 * b3);
        assert(m / 16 == 2 * (4 * b0 + 2 * b1 + 1 * b2) + b3);
        assert(l / 8 == 1 * b3 + 2 * b4 + 4 * b5 + 8 * b6 + 16 * b7);
        assert(l / 8 == 2 * (1 * b4 + 2 * b5 + 4 * b6 + 8 * b7) + b3);
    }
    else if j == 4 {
        assert(i + j == i + 4);
        assert(pow2((7 - j) as nat) == 8 && pow2(j as nat) == 16);
        assert(m / 8 == 16 * b0 + 8 * b1 + 4 * b2 + 2 * b3 + 1 * b4);
        assert(m / 8 == 2 * (8 * b0 + 4 * b1 + 2 * b2 + 1 * b3) + b4);
        assert(l / 16 == 1 * b4 + 2 * b5 + 4 * b6 + 8 * b7);
        assert(l / 16 == 2 * (1 * b5 + 2 * b6 + 4 * b7) + b4);
    }
    else if j == 5 {
        assert(i + j == i + 5);
        assert(pow2((7 - j) as nat) == 4 && pow2(j as nat) == 32);
        assert(m / 4 == 32 * b0 + 16 * b1 + 8 * b2 + 4 * b3 + 2 * b4 + 1 * b5);
        assert(m / 4 == 2 * (16 * b0 + 8 * b1 + 4 * b2 + 2 * b3 + 1 * b4) + b5);
        assert(l / 32 == 1 * b5 + 2 * b6 + 4 * b7);
        assert(l / 32 == 2 * (1 * b6 + 2 * b7) + b5);
    }
    else if j == 6 {
        assert(i + j == i + 6);
        assert(pow2((7 - j) as nat) == 2 && pow2(j as nat) == 64);
        assert(m / 2 == 64 * b0 + 32 * b1 + 16 * b2 + 8 * b3 + 4 * b4 + 2 * b5 + 1 * b6);
        assert(m / 2 == 2 * (32 * b0 + 16 * b1 + 8 * b2 + 4 * b3 + 2 * b4 + 1 * b5) + b6);
        assert(l / 64 == 1 * b6 + 2 * b7);
        assert(l / 64 == 2 * (1 * b7) + b6);
    }
    else {
        assert(i + j == i + 7);
        assert(pow2((7 - j) as nat) == 1 && pow2(j as nat) == 128);
        assert(m / 1 == 128 * b0 + 64 * b1 + 32 * b2 + 16 * b3 + 8 * b4 + 4 * b5 + 2 * b6 + 1 * b7);
        assert(m / 1 == 2 * (64 * b0 + 32 * b1 + 16 * b2 + 8 * b3 + 4 * b4 + 2 * b5 + 1 * b6) + b7);
        assert(l / 128 == 1 * b7);
        assert(l / 128 == 2 * (0) + b7);
    }
}
/// the bits of a packed string are the string and zeros
pub proof fn lemma_unpack_pack(msb: bool, s: Seq<bool>)
    ensures
        unpack(msb, pack(msb, s)).len() == 8 * ((s.len() + 7) / 8),
        unpack(msb, pack(msb, s)).len() < s.len() + 8,
        forall|i: int| 0 <= i < unpack(msb, pack(msb, s)).len() ==> #[trigger] unpack(msb, pack(msb, s))[i] == (i < s.len() && s[i]),
        unpack(msb, pack(msb, s)).take(s.len() as int) == s,
{
    let u = unpack(msb, pack(msb, s));
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == (i < s.len() && s[i]) by {
        lemma_byte_bits(s, 8 * (i / 8), i % 8);
    }
    assert(u.take(s.len() as int) =~= s);
}
pub proof fn lemma_pack_concat(msb: bool, a: Seq<bool>, b: Seq<bool>)
    requires a.len() % 8 == 0
    ensures pack(msb, a + b) == pack(msb, a) + pack(msb, b), pack(msb, a).len() == a.len() / 8
{
    let s = a + b;
    assert forall|i: int| 0 <= i < (s.len() + 7) / 8 implies #[trigger] pack(msb, s)[i] == (pack(msb, a) + pack(msb, b))[i] by {
        if i < a.len() / 8 {
            assert(forall|j: int| 0 <= j < 8 ==> #[trigger] bit_at(s, 8 * i + j) == bit_at(a, 8 * i + j));
            assert(byte_msb(s, 8 * i) == byte_msb(a, 8 * i) && byte_lsb(s, 8 * i) == byte_lsb(a, 8 * i)) by {
                assert(bit_at(s, 8 * i + 0) == bit_at(a, 8 * i + 0));
            }
        } else {
            let k = i - a.len() / 8;
            assert(8 * i - a.len() == 8 * k);
            assert(forall|j: int| 0 <= j < 8 ==> #[trigger] bit_at(s, 8 * i + j) == bit_at(b, 8 * k + j));
            assert(byte_msb(s, 8 * i) == byte_msb(b, 8 * k) && byte_lsb(s, 8 * i) == byte_lsb(b, 8 * k)) by {
                assert(bit_at(s, 8 * i + 0) == bit_at(b, 8 * k + 0));
            }
        }
    }
    assert(pack(msb, s) =~= pack(msb, a) + pack(msb, b));
}
pub proof fn lemma_unpack_concat(msb: bool, a: Seq<u8>, b: Seq<u8>)
    ensures unpack(msb, a + b) == unpack(msb, a) + unpack(msb, b), unpack(msb, a).len() == 8 * a.len()
{
    let s = a + b;
    assert forall|i: int| 0 <= i < 8 * s.len() implies #[trigger] unpack(msb, s)[i] == (unpack(msb, a) + unpack(msb, b))[i] by {
        if i >= 8 * a.len() {
            assert((i - 8 * a.len()) / 8 == i / 8 - a.len());
            assert((i - 8 * a.len()) % 8 == i % 8);
        }
    }
    assert(unpack(msb, s) =~= unpack(msb, a) + unpack(msb, b));
}

// ---------------------------------------------------------------- bit writers

pub proof fn lemma_wr(d: Seq<u8>, p: int, b: Seq<u8>)
    requires p >= 0
    ensures
        b.len() > 0 ==> wr(d, p, b).len() == (if p + b.len() > d.len() { p + b.len() } else { d.len() as int }),
        b.len() == 0 ==> wr(d, p, b) == d,
        forall|i: int| 0 <= i < d.len() && !(p <= i < p + b.len()) ==> #[trigger] wr(d, p, b)[i] == d[i],
        forall|i: int| p <= i < p + b.len() ==> #[trigger] wr(d, p, b)[i] == b[i - p],
{
    reveal(wr);
}
/// writing at byte k of what was placed
pub proof fn lemma_placed_wr(d0: Seq<u8>, off: int, s: Seq<u8>, d: Seq<u8>, k: int, b: Seq<u8>)
    requires placed(d0, off, s, d), off >= 0, 0 <= k <= s.len()
    ensures
        k + b.len() >= s.len() ==> placed(d0, off, s.take(k) + b, wr(d, off + k, b)),
        k + b.len() <= s.len() ==> placed(d0, off, s.take(k) + b + s.skip(k + b.len()), wr(d, off + k, b)),
{
    reveal(wr);
    let e = wr(d, off + k, b);
    if k + b.len() >= s.len() {
        if s.len() == 0 { assert(s.take(k) + b =~= b); }
        if b.len() == 0 { assert(s.take(k) + b =~= s); }
        assert(e =~= wr(d0, off, s.take(k) + b));
    }
    if k + b.len() <= s.len() {
        let m = s.take(k) + b + s.skip(k + b.len());
        if b.len() == 0 { assert(m =~= s); }
        assert(e =~= wr(d0, off, m));
    }
}
/// the stream d (d0 before), positioned at p, holds the bits `done` from byte `off` on; the bits of an
/// incomplete last byte are also kept in `bits`
#[verifier::opaque]
pub open spec fn coder_at(msb: bool, d0: Seq<u8>, off: int, done: Seq<bool>, d: Seq<u8>, p: int, bits: Seq<bool>) -> bool {
    &&& 0 <= off
    &&& p == off + done.len() / 8
    &&& bits == done.skip(8 * (done.len() as int / 8))
    &&& placed(d0, off, pack(msb, done), d)
}
pub proof fn lemma_coder_put(msb: bool, d0: Seq<u8>, off: int, done: Seq<bool>, d: Seq<u8>, p: int, bits: Seq<bool>, new: Seq<bool>)
    requires coder_at(msb, d0, off, done, d, p, bits)
    ensures
        ({
            let all = bits + new;
            let e = wr(d, p, pack(msb, all));
            let k = all.len() as int / 8;
            &&& all.len() % 8 == (done + new).len() % 8
            &&& pack(msb, all).len() == (all.len() + 7) / 8
            &&& coder_at(msb, d0, off, done + new, e, p + k, all.skip(8 * k))
        }),
{
    reveal(coder_at);
    let m = done.len() as int / 8;
    let all = bits + new;
    let a = done.take(8 * m);
    assert(done =~= a + bits);
    assert(done + new =~= a + all);
    lemma_pack_concat(msb, a, bits);
    lemma_pack_concat(msb, a, all);
    lemma_placed_wr(d0, off, pack(msb, done), d, m, pack(msb, all));
    assert(pack(msb, done).take(m) =~= pack(msb, a));
    let k = all.len() as int / 8;
    assert((done + new).len() == 8 * m + all.len());
    assert((done + new).len() as int / 8 == m + k);
    assert((done + new).skip(8 * (m + k)) =~= all.skip(8 * k));
}

// ---------------------------------------------------------------- bit readers

/// the bits still to come: those taken from the stream but not used, and those in the rest of the stream
pub open spec fn rem(msb: bool, data: Seq<u8>, pos: int, bits: Seq<bool>, ptr: int) -> Seq<bool> {
    bits.skip(ptr) + unpack(msb, data.skip(pos))
}
pub proof fn lemma_rem_get(msb: bool, data: Seq<u8>, pos: int, bits: Seq<bool>, ptr: int)
    requires 0 <= pos <= data.len(), 0 <= ptr < bits.len()
    ensures
        rem(msb, data, pos, bits, ptr).len() > 0,
        bits[ptr] == rem(msb, data, pos, bits, ptr)[0],
        rem(msb, data, pos, bits, ptr + 1) == rem(msb, data, pos, bits, ptr).skip(1),
{
    assert(rem(msb, data, pos, bits, ptr + 1) =~= rem(msb, data, pos, bits, ptr).skip(1));
}
pub proof fn lemma_rem_drop(msb: bool, data: Seq<u8>, pos: int, bits: Seq<bool>, ptr: int)
    requires 0 <= ptr <= bits.len()
    ensures rem(msb, data, pos, bits.skip(ptr), 0) == rem(msb, data, pos, bits, ptr)
{
    assert(bits.skip(ptr).skip(0) =~= bits.skip(ptr));
}
pub proof fn lemma_rem_feed(msb: bool, data: Seq<u8>, pos: int, bits: Seq<bool>, ptr: int)
    requires 0 <= pos < data.len(), 0 <= ptr <= bits.len()
    ensures rem(msb, data, pos + 1, bits + unpack(msb, seq![data[pos]]), ptr) == rem(msb, data, pos, bits, ptr), unpack(msb, seq![data[pos]]).len() == 8
{
    assert(data.skip(pos) =~= seq![data[pos]] + data.skip(pos + 1));
    lemma_unpack_concat(msb, seq![data[pos]], data.skip(pos + 1));
    let u = unpack(msb, seq![data[pos]]);
    assert((bits + u).skip(ptr) =~= bits.skip(ptr) + u);
    assert(bits.skip(ptr) + u + unpack(msb, data.skip(pos + 1)) =~= bits.skip(ptr) + (u + unpack(msb, data.skip(pos + 1))));
}
pub proof fn lemma_rem_end(msb: bool, data: Seq<u8>, pos: int, bits: Seq<bool>)
    requires pos >= data.len(), pos <= data.len()
    ensures rem(msb, data, pos, bits, bits.len() as int).len() == 0
{
    assert(bits.skip(bits.len() as int).len() == 0);
}
pub proof fn lemma_rem_start(msb: bool, data: Seq<u8>, pos: int)
    ensures rem(msb, data, pos, Seq::empty(), 0) == unpack(msb, data.skip(pos))
{
    assert(Seq::<bool>::empty().skip(0) + unpack(msb, data.skip(pos)) =~= unpack(msb, data.skip(pos)));
}

// ---------------------------------------------------------------- machine words

pub proof fn lemma_shr(v: usize, m: usize)
    requires m < 64
    ensures (v >> m) as nat == v as nat / pow2(m as nat)
    decreases m
{
    lemma_pow2_pos(m as nat);
    if m == 0 {
        assert(v >> 0 == v) by(bit_vector);
        assert(pow2(0) == 1);
    } else {
        let k = (m - 1) as usize;
        lemma_shr(v, k);
        lemma_pow2_pos(k as nat);
        assert(v >> m == (v >> k) >> 1) by(bit_vector) requires 0 < m < 64, k == m - 1;
        let x = v >> k;
        assert(x >> 1 == x / 2) by(bit_vector);
        vstd::arithmetic::div_mod::lemma_div_denominator(v as int, pow2(k as nat) as int, 2);
        assert(pow2(m as nat) == pow2(k as nat) * 2);
    }
}
pub proof fn lemma_bits_msb_index(v: nat, n: nat, k: int)
    requires 0 <= k < n
    ensures bits_msb(v, n).len() == n, bits_msb(v, n)[k] == ((v / pow2((n - 1 - k) as nat)) % 2 == 1)
    decreases n
{
    lemma_bits_len(true, v, n);
    lemma_bits_len(true, v / 2, (n - 1) as nat);
    if k == n - 1 {
        assert(pow2(0) == 1);
        assert((n - 1 - k) as nat == 0);
        assert(bits_msb(v, n)[k] == (v % 2 == 1));
        assert(v / 1 == v);
    } else {
        lemma_bits_msb_index(v / 2, (n - 1) as nat, k);
        let q = (n - 2 - k) as nat;
        lemma_pow2_pos(q);
        vstd::arithmetic::div_mod::lemma_div_denominator(v as int, 2, pow2(q) as int);
        assert((n - 1 - k) as nat == q + 1);
        assert(pow2((n - 1 - k) as nat) == 2 * pow2(q));
        assert((v / 2) / pow2(q) == v / (2 * pow2(q)));
        assert(bits_msb(v, n)[k] == bits_msb(v / 2, (n - 1) as nat)[k]);
        assert(((n - 1) as nat - 1 - k) as nat == q);
    }
}
/// bit k of v, first aligned to the left of the word and then shifted out
pub proof fn lemma_top_bit(v: usize, n: usize, k: usize)
    requires 1 <= n <= 64, k < n
    ensures (((v << ((64 - n) as usize)) << k) & 0x8000_0000_0000_0000 > 0) == bits_msb(v as nat, n as nat)[k as int]
{
    lemma_bits_msb_index(v as nat, n as nat, k as int);
    let m = (n - 1 - k) as usize;
    let a = (64 - n) as usize;
    lemma_shr(v, m);
    let x = v >> m;
    assert((((v << a) << k) & 0x8000_0000_0000_0000 > 0) == (x & 1 == 1)) by(bit_vector)
        requires 1 <= n <= 64, k < n, m == n - 1 - k, a == 64 - n, x == v >> m;
    assert((x & 1 == 1) == (x % 2 == 1)) by(bit_vector);
}
pub proof fn lemma_shl_one(i: usize)
    requires i < 64
    ensures (1usize << i) as nat == pow2(i as nat)
    decreases i
{
    if i == 0 {
        assert(1usize << 0usize == 1) by(bit_vector);
        assert(pow2(0) == 1);
    } else {
        let k = (i - 1) as usize;
        lemma_shl_one(k);
        assert(1usize << i == 2 * (1usize << k)) by(bit_vector) requires 0 < i < 64, k == i - 1;
    }
}
pub proof fn lemma_or_bit(a: usize, x: usize, i: usize)
    requires i < 63, a < pow2(i as nat), x <= 1
    ensures (a | (x << i)) == a + x * pow2(i as nat), (a | (x << i)) < pow2((i + 1) as nat)
{
    lemma_shl_one(i);
    let p = 1usize << i;
    assert(a | (x << i) == a + (if x == 1 { p } else { 0 })) by(bit_vector) requires i < 63, a < p, p == 1usize << i, x <= 1;
    assert(x * pow2(i as nat) == (if x == 1 { p as nat } else { 0 })) by(nonlinear_arith) requires pow2(i as nat) == p, x <= 1;
}
pub proof fn lemma_shl_or(a: usize, x: usize)
    requires a < 0x4000_0000_0000_0000, x <= 1
    ensures ((a << 1) | x) == 2 * a + x
{
    assert(((a << 1) | x) == 2 * a + x) by(bit_vector) requires a < 0x4000_0000_0000_0000, x <= 1;
}
/// value of the first b bits from i on, least significant first
pub open spec fn part_lsb(s: Seq<bool>, i: int, b: nat) -> int
    decreases b
{
    if b == 0 { 0 } else { part_lsb(s, i, (b - 1) as nat) + bit_at(s, i + b - 1) * pow2((b - 1) as nat) }
}
pub proof fn lemma_part_bound(s: Seq<bool>, i: int, b: nat)
    ensures 0 <= part_lsb(s, i, b) < pow2(b)
    decreases b
{
    if b > 0 {
        lemma_part_bound(s, i, (b - 1) as nat);
        assert(0 <= bit_at(s, i + b - 1) * pow2((b - 1) as nat) <= pow2((b - 1) as nat)) by(nonlinear_arith) requires 0 <= bit_at(s, i + b - 1) <= 1;
    }
}
pub proof fn lemma_part_byte(s: Seq<bool>, i: int, b: nat)
    requires b <= 8, s.len() <= i + b || b == 8
    ensures part_lsb(s, i, b) == byte_lsb(s, i)
{
    reveal_with_fuel(part_lsb, 10);
    lemma_pow2_values();
    assert(part_lsb(s, i, 8) == bit_at(s, i) + 2 * bit_at(s, i + 1) + 4 * bit_at(s, i + 2) + 8 * bit_at(s, i + 3)
        + 16 * bit_at(s, i + 4) + 32 * bit_at(s, i + 5) + 64 * bit_at(s, i + 6) + 128 * bit_at(s, i + 7)) by(nonlinear_arith)
        requires
            part_lsb(s, i, 8) == bit_at(s, i) * pow2(0) + bit_at(s, i + 1) * pow2(1) + bit_at(s, i + 2) * pow2(2) + bit_at(s, i + 3) * pow2(3)
                + bit_at(s, i + 4) * pow2(4) + bit_at(s, i + 5) * pow2(5) + bit_at(s, i + 6) * pow2(6) + bit_at(s, i + 7) * pow2(7),
            pow2(0) == 1, pow2(1) == 2, pow2(2) == 4, pow2(3) == 8, pow2(4) == 16, pow2(5) == 32, pow2(6) == 64, pow2(7) == 128;
    lemma_part_zero(s, i, b, 8);
}
pub proof fn lemma_part_zero(s: Seq<bool>, i: int, a: nat, b: nat)
    requires a <= b, s.len() <= i + a || a == b
    ensures part_lsb(s, i, a) == part_lsb(s, i, b)
    decreases b
{
    if a < b {
        lemma_part_zero(s, i, a, (b - 1) as nat);
        assert(bit_at(s, i + b - 1) * pow2((b - 1) as nat) == 0) by(nonlinear_arith) requires bit_at(s, i + b - 1) == 0;
    }
}
pub proof fn lemma_or_bit8(a: u8, x: u8, i: usize)
    requires i < 8, a < pow2(i as nat), x <= 1
    ensures (a | (x << i)) == a + x * pow2(i as nat), (a | (x << i)) < pow2((i + 1) as nat)
{
    lemma_pow2_values();
    if i == 0 { assert(a < 1 && x <= 1 ==> a | (x << 0usize) == a + x) by(bit_vector); }
    else if i == 1 { assert(a < 2 && x <= 1 ==> a | (x << 1usize) == a + 2 * x) by(bit_vector); }
    else if i == 2 { assert(a < 4 && x <= 1 ==> a | (x << 2usize) == a + 4 * x) by(bit_vector); }
    else if i == 3 { assert(a < 8 && x <= 1 ==> a | (x << 3usize) == a + 8 * x) by(bit_vector); }
    else if i == 4 { assert(a < 16 && x <= 1 ==> a | (x << 4usize) == a + 16 * x) by(bit_vector); }
    else if i == 5 { assert(a < 32 && x <= 1 ==> a | (x << 5usize) == a + 32 * x) by(bit_vector); }
    else if i == 6 { assert(a < 64 && x <= 1 ==> a | (x << 6usize) == a + 64 * x) by(bit_vector); }
    else { assert(a < 128 && x <= 1 ==> a | (x << 7usize) == a + 128 * x) by(bit_vector); }
    assert(x * pow2(i as nat) == pow2(i as nat) * x) by(nonlinear_arith);
}
pub proof fn lemma_mask8(v: u8, b: usize)
    requires b < 8
    ensures ((v & (1u8 << b)) != 0) == lsb_bit(v, b as int)
{
    lemma_pow2_values();
    if b == 0 { assert(((v & (1u8 << 0usize)) != 0) == (v / 1 % 2 == 1)) by(bit_vector); }
    else if b == 1 { assert(((v & (1u8 << 1usize)) != 0) == (v / 2 % 2 == 1)) by(bit_vector); }
    else if b == 2 { assert(((v & (1u8 << 2usize)) != 0) == (v / 4 % 2 == 1)) by(bit_vector); }
    else if b == 3 { assert(((v & (1u8 << 3usize)) != 0) == (v / 8 % 2 == 1)) by(bit_vector); }
    else if b == 4 { assert(((v & (1u8 << 4usize)) != 0) == (v / 16 % 2 == 1)) by(bit_vector); }
    else if b == 5 { assert(((v & (1u8 << 5usize)) != 0) == (v / 32 % 2 == 1)) by(bit_vector); }
    else if b == 6 { assert(((v & (1u8 << 6usize)) != 0) == (v / 64 % 2 == 1)) by(bit_vector); }
    else { assert(((v & (1u8 << 7usize)) != 0) == (v / 128 % 2 == 1)) by(bit_vector); }
}
