/// no stream is longer than this (2^56-1; far beyond what any file system or memory holds)
pub spec const MAX_LEN: int = 0x00ff_ffff_ffff_ffff;

/// effect of writing bytes `b` at position `p` of a stream holding `d` (zero fill when `p` is past the end)
#[verifier::opaque]
pub open spec fn wr(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if b.len() == 0 { d } else {
        let e = if d.len() < p { d + Seq::new((p - d.len()) as nat, |i: int| 0u8) } else { d };
        e.take(p) + b + (if p + b.len() < e.len() { e.skip(p + b.len()) } else { Seq::empty() })
    }
}

pub open spec fn le_bytes(x: nat, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_bytes(x / 256, (n - 1) as nat) }
}

pub open spec fn le_value(b: Seq<u8>) -> nat
    decreases b.len()
{
    if b.len() == 0 { 0 } else { b[0] as nat + 256 * le_value(b.skip(1)) }
}

pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }

/// bit i of a byte, counted from the most significant
pub open spec fn msb_bit(b: u8, i: int) -> bool { (b as int / (pow2((7 - i) as nat) as int)) % 2 == 1 }
pub open spec fn lsb_bit(b: u8, i: int) -> bool { (b as int / (pow2(i as nat) as int)) % 2 == 1 }

pub open spec fn unpack_msb(b: Seq<u8>) -> Seq<bool> {
    Seq::new(8 * b.len(), |i: int| msb_bit(b[i / 8], i % 8))
}
pub open spec fn unpack_lsb(b: Seq<u8>) -> Seq<bool> {
    Seq::new(8 * b.len(), |i: int| lsb_bit(b[i / 8], i % 8))
}
pub open spec fn bitval(b: bool) -> int { if b { 1 } else { 0 } }
/// bit or zero when past the end
pub open spec fn bit_at(s: Seq<bool>, i: int) -> int { if 0 <= i < s.len() { bitval(s[i]) } else { 0 } }
pub open spec fn byte_msb(s: Seq<bool>, i: int) -> u8 {
    (128 * bit_at(s, i) + 64 * bit_at(s, i + 1) + 32 * bit_at(s, i + 2) + 16 * bit_at(s, i + 3)
        + 8 * bit_at(s, i + 4) + 4 * bit_at(s, i + 5) + 2 * bit_at(s, i + 6) + bit_at(s, i + 7)) as u8
}
pub open spec fn byte_lsb(s: Seq<bool>, i: int) -> u8 {
    (bit_at(s, i) + 2 * bit_at(s, i + 1) + 4 * bit_at(s, i + 2) + 8 * bit_at(s, i + 3)
        + 16 * bit_at(s, i + 4) + 32 * bit_at(s, i + 5) + 64 * bit_at(s, i + 6) + 128 * bit_at(s, i + 7)) as u8
}
/// bytes holding the bits, the last one padded with zeros
pub open spec fn pack_msb(s: Seq<bool>) -> Seq<u8> {
    Seq::new(((s.len() + 7) / 8) as nat, |i: int| byte_msb(s, 8 * i))
}
pub open spec fn pack_lsb(s: Seq<bool>) -> Seq<u8> {
    Seq::new(((s.len() + 7) / 8) as nat, |i: int| byte_lsb(s, 8 * i))
}
