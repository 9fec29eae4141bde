/// bytes `s` were placed at `off` of a stream that held `d0` and now holds `d1`; nothing else changed
pub open spec fn placed(d0: Seq<u8>, off: int, s: Seq<u8>, d1: Seq<u8>) -> bool { d1 == wr(d0, off, s) }
pub open spec fn is_lib(e: crate::shim::DynErr, x: crate::Error) -> bool { e == crate::shim::DynErr::Lib(x) }
/// no operation on a stream fails in this run (which is always so for streams in memory)
pub open spec fn io_works() -> bool { !crate::shim::io::io_may_fail() }
/// unless this is a failure (other than the end of the data), nothing has failed in between
pub open spec fn no_fault<T>(r: Result<T, crate::shim::io::Error>, before: bool, after: bool) -> bool { (r matches Err(e) ==> e.is_eof()) ==> after == before }
/// an operation on one of the streams failed
pub open spec fn is_fault(e: crate::shim::DynErr) -> bool { e matches crate::shim::DynErr::Io(x) && x.is_fault() }
pub open spec fn is_eof(e: crate::shim::DynErr) -> bool { e matches crate::shim::DynErr::Io(x) && x.is_eof() }
pub open spec fn body(d: Seq<u8>, off: u64) -> Seq<u8> { d.skip(off as int) }

// ---------------------------------------------------------------- CRC-16 and the Teledisk header

pub open spec fn crc_bit(c: int) -> int {
    if c >= 0x8000 { xor16((2 * c) % 0x10000, 0xa097) } else { 2 * c }
}
pub open spec fn xor16(a: int, b: int) -> int { ((a as u16) ^ (b as u16)) as int }
pub open spec fn crc_bits(c: int, n: nat) -> int decreases n {
    if n == 0 { c } else { crc_bit(crc_bits(c, (n - 1) as nat)) }
}
pub open spec fn crc_byte(c: int, b: u8) -> int { crc_bits(xor16(c, b as int * 256), 8) }
/// CRC-16, polynomial 0xA097, most significant bit first
pub open spec fn crc_spec(seed: int, b: Seq<u8>) -> int decreases b.len() {
    if b.len() == 0 { seed } else { crc_byte(crc_spec(seed, b.drop_last()), b.last()) }
}
pub open spec fn td_crc(h: Seq<u8>) -> Seq<u8> { le_bytes(crc_spec(0, h.subrange(0, 10)) as nat, 2) }
/// first 12 bytes are a header with this signature and a right checksum
pub open spec fn td_valid(d: Seq<u8>, s0: u8, s1: u8) -> bool {
    d.len() >= 12 && d[0] == s0 && d[1] == s1 && d.subrange(10, 12) == td_crc(d)
}
/// the same header with another signature and the checksum that belongs to it
pub open spec fn td_new_header(d: Seq<u8>, s0: u8, s1: u8) -> Seq<u8> {
    let h = seq![s0, s1] + d.subrange(2, 10);
    h + td_crc(h)
}
pub open spec fn lzss_opts_ok(o: crate::lzss_huff::Options) -> bool {
    &&& o.window_size <= 4096
    &&& 2 * o.lookahead <= o.window_size
    &&& o.threshold < o.lookahead
    &&& o.threshold <= 255
    &&& o.out_offset <= MAX_LEN
}
pub open spec fn lzw_opts_ok(o: crate::lzw::Options) -> bool {
    &&& o.min_code_width == o.max_code_width
    &&& 9 <= o.max_code_width <= 16
    &&& o.min_symbol == 0
    &&& o.max_symbol == 255
    &&& o.chunk_size >= 1
    &&& (o.clear_code matches Some(c) ==> 255 < c < pow2(o.max_code_width as nat))
    &&& (o.stop_code matches Some(c) ==> 255 < c < pow2(o.max_code_width as nat))
    &&& !(o.clear_code is Some && o.stop_code is Some && o.clear_code == o.stop_code)
    &&& o.out_offset <= MAX_LEN
    &&& o.header_bits <= 32
    &&& o.header_divisor >= 1
    &&& o.header_divisor <= 0x10000
}
