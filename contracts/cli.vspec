## the command line tool
@fn cli::ok_to_overwrite
@ret r
@contract
    ensures
        final(w).files == old(w).files, final(w).open == old(w).open,
        r ==> may_write(*old(w), path_out@),
        may_write(*old(w), path_out@) ==> r,
@fn cli::main
@ret r
@contract
    requires old(w).open@ is None
    ensures
        cli_command() is Some && !may_write(*old(w), cli_arg("output"@)) ==> final(w).files == old(w).files && final(w).open@ is None,
        r is Ok && cli_command() == Some("compress"@) && may_write(*old(w), cli_arg("output"@)) ==> done(true, old(w).files@, final(w).files@) && final(w).open@ is None,
        r is Ok && cli_command() == Some("expand"@) && may_write(*old(w), cli_arg("output"@)) ==> done(false, old(w).files@, final(w).files@) && final(w).open@ is None,
@at start
    proof {
        reveal_strlit("compress"); reveal_strlit("expand");
        assert("compress"@.len() == 8 && "expand"@.len() == 6);
        lemma_std_opts();
        lemma_methods();
    }
@at before "let (in_size" #0
    let ghost (c0, x) = (io::Write::data(&out_file), in_file.inner@);
@at before "out_file.set_len" #0
    proof {
        let (m, d) = (method@, io::Write::data(&out_file));
        assert(x.skip(0) =~= x);
        assert(m == "lzw"@ ==> out_size == lzw_encode(x, crate::lzw::STD_OPTIONS).len());
        assert(m == "lzss_huff"@ ==> out_size == lzss_encode(x, crate::lzss_huff::STD_OPTIONS).len());
        assert(m == "lzhuf-port"@ ==> out_size == port_encode(x).len());
        assert(m == "td0"@ ==> out_size == crate::td0::td_encode(x).len());
        let out = if m == "lzw"@ { lzw_encode(x, crate::lzw::STD_OPTIONS) }
            else if m == "lzhuf-port"@ { port_encode(x) }
            else if m == "lzss_huff"@ { lzss_encode(x, crate::lzss_huff::STD_OPTIONS) }
            else { crate::td0::td_encode(x) };
        lemma_set_len(c0, d, true, m, x, out_size as int, out);
    }
@at before "let (in_size" #1
    let ghost (c0, x) = (io::Write::data(&out_file), in_file.inner@);
@at before "out_file.set_len" #1
    proof {
        let (m, d) = (method@, io::Write::data(&out_file));
        assert(x.skip(0) =~= x);
        assert(m == "lzw"@ ==> out_size == lzw_decode(x, crate::lzw::STD_OPTIONS)->0.len());
        assert(m == "lzhuf-port"@ ==> out_size == port_decode(x)->0.len());
        assert(m == "lzss_huff"@ ==> out_size == lzhuf_decode(x, crate::lzss_huff::STD_OPTIONS)->0.len());
        if m == "td0"@ { crate::td0::lemma_new_header_len(x, 84, 68); }
        assert(m == "td0"@ ==> out_size == crate::td0::td_decode(x)->0.len());
        let out = if m == "lzw"@ { lzw_decode(x, crate::lzw::STD_OPTIONS)->0 }
            else if m == "lzhuf-port"@ { port_decode(x)->0 }
            else if m == "lzss_huff"@ { lzhuf_decode(x, crate::lzss_huff::STD_OPTIONS)->0 }
            else { crate::td0::td_decode(x)->0 };
        lemma_set_len(c0, d, false, m, x, out_size as int, out);
    }
@module cli
pub use crate::shim::cli::*;
pub use crate::shim::io;
/// the output does not exist, or the user confirms
pub open spec fn may_write(w: World, p: Seq<char>) -> bool {
    !w.files@.contains_key(p) || trimmed_end(first_line(w)) == "y"@ || trimmed_end(first_line(w)) == "Y"@
}
/// what the selected function of the library makes of x
pub open spec fn lib_result(compress: bool, m: Seq<char>, x: Seq<u8>, out: Seq<u8>) -> bool {
    if compress {
        if m == "lzw"@ { out == lzw_encode(x, crate::lzw::STD_OPTIONS) }
        else if m == "lzhuf-port"@ { out == port_encode(x) }
        else if m == "lzss_huff"@ { out == lzss_encode(x, crate::lzss_huff::STD_OPTIONS) }
        else { m == "td0"@ && out == crate::td0::td_encode(x) }
    } else {
        if m == "lzw"@ { lzw_decode(x, crate::lzw::STD_OPTIONS) == Some(out) }
        else if m == "lzhuf-port"@ { port_decode(x) == Some(out) }
        else if m == "lzss_huff"@ { lzhuf_decode(x, crate::lzss_huff::STD_OPTIONS) == Some(out) }
        else { m == "td0"@ && crate::td0::td_decode(x) == Some(out) }
    }
}
/// the output file, and only it, holds the result for the input file as it was before
pub open spec fn done(compress: bool, f0: Map<Seq<char>, Seq<u8>>, f1: Map<Seq<char>, Seq<u8>>) -> bool {
    f0.contains_key(cli_arg("input"@)) && exists|out: Seq<u8>| #[trigger] lib_result(compress, cli_arg("method"@), f0[cli_arg("input"@)], out) && f1 == f0.insert(cli_arg("output"@), out)
}
pub proof fn lemma_std_opts()
    ensures lzw_compress_ok(crate::lzw::STD_OPTIONS), lzss_opts_ok(crate::lzss_huff::STD_OPTIONS),
{
    lemma_pow2_values();
    assert(pow2(12) == 4096) by(compute_only);
}
/// the library placed its result at the beginning; cutting off what follows leaves the result
pub proof fn lemma_set_len(d0: Seq<u8>, d1: Seq<u8>, compress: bool, m: Seq<char>, x: Seq<u8>, n: int, out: Seq<u8>)
    requires lib_result(compress, m, x, out), n == out.len(), placed(d0, 0, out, d1)
    ensures n <= d1.len(), lib_result(compress, m, x, d1.take(n)), 0 <= n
{
    reveal(wr);
    assert(d1.take(n) =~= out);
}
pub proof fn lemma_methods()
    ensures "lzw"@ != "lzhuf-port"@, "lzw"@ != "lzss_huff"@, "lzw"@ != "td0"@, "lzhuf-port"@ != "lzss_huff"@, "lzhuf-port"@ != "td0"@, "lzss_huff"@ != "td0"@
{
    reveal_strlit("lzw"); reveal_strlit("lzhuf-port"); reveal_strlit("lzss_huff"); reveal_strlit("td0");
    assert("lzw"@.len() == 3 && "lzhuf-port"@.len() == 10 && "lzss_huff"@.len() == 9 && "td0"@.len() == 3);
    assert("lzw"@[0] == 'l' && "td0"@[0] == 't');
}
