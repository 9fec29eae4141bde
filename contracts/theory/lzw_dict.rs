// ---------------------------------------------------------------- the dictionary of lzw.rs

pub type Dict = Map<(usize, usize), crate::lzw::Link>;

pub open spec fn dict_roots(d: Dict) -> bool {
    forall|a: usize, s: usize| s == usize::MAX && a <= 255 ==> #[trigger] d.contains_key((a, s)) && d[(a, s)].code == a && d[(a, s)].sym == a
}
/// the dictionary as made by `create`
pub open spec fn dict_new(d: Dict) -> bool {
    &&& dict_roots(d)
    &&& forall|a: usize, s: usize| #[trigger] d.contains_key((a, s)) ==> s == usize::MAX && a <= 255
}
/// dictionary of an encoder
pub open spec fn dict_enc(d: Dict) -> bool {
    &&& dict_roots(d)
    &&& forall|a: usize, s: usize| #[trigger] d.contains_key((a, s)) ==> (s == usize::MAX && a <= 255) || s <= 255
}
pub open spec fn trie_has(d: Dict, k: (int, u8)) -> bool { 0 <= k.0 <= usize::MAX && d.contains_key((k.0 as usize, k.1 as usize)) }
pub open spec fn trie(d: Dict) -> Trie {
    IMap::new(|k: (int, u8)| trie_has(d, k), |k: (int, u8)| d[(k.0 as usize, k.1 as usize)].code as int)
}
/// the code of a match that is held as the key of its entry
pub open spec fn match_code(d: Dict, m: Option<crate::lzw::Link>) -> Option<int> {
    match m { None => None, Some(l) => Some(d[(l.code, l.sym)].code as int) }
}
pub open spec fn match_ok(d: Dict, m: Option<crate::lzw::Link>) -> bool {
    match m { None => true, Some(l) => d.contains_key((l.code, l.sym)) }
}
pub proof fn lemma_trie_new(d: Dict)
    requires dict_new(d)
    ensures dict_enc(d), trie(d) == IMap::<(int, u8), int>::empty(), dict_dec(d, -1), strs(d) == lzw_roots()
{
    reveal(dict_dec);
    assert forall|k: (int, u8)| !(#[trigger] trie_has(d, k)) by {}
    assert(trie(d) =~= IMap::<(int, u8), int>::empty());
    assert forall|c: int| strs(d).contains_key(c) <==> lzw_roots().contains_key(c) by {
        if 0 <= c <= 255 { assert(d.contains_key((c as usize, usize::MAX))); }
    }
    assert(strs(d) =~= lzw_roots());
}
pub proof fn lemma_trie_insert(d: Dict, c: usize, y: usize, l: crate::lzw::Link)
    requires dict_enc(d), y <= 255
    ensures
        dict_enc(d.insert((c, y), l)),
        trie(d.insert((c, y), l)) == trie(d).insert((c as int, y as u8), l.code as int),
{
    let e = d.insert((c, y), l);
    assert forall|k: (int, u8)| trie(e).contains_key(k) <==> trie(d).insert((c as int, y as u8), l.code as int).contains_key(k) by {
        if trie_has(e, k) { assert((k.0 as usize, k.1 as usize) == (c, y) <==> k == (c as int, y as u8)); }
    }
    assert(trie(e) =~= trie(d).insert((c as int, y as u8), l.code as int));
    assert forall|a: usize, s: usize| s == usize::MAX && a <= 255 implies #[trigger] e.contains_key((a, s)) && e[(a, s)].code == a && e[(a, s)].sym == a by {
        assert(d.contains_key((a, s)));
    }
    assert forall|a: usize, s: usize| #[trigger] e.contains_key((a, s)) implies (s == usize::MAX && a <= 255) || s <= 255 by {
        if (a, s) != (c, y) { assert(d.contains_key((a, s))); }
    }
}
/// dictionary of a decoder: every string but the roots is a string with a smaller code and a symbol
#[verifier::opaque]
pub open spec fn dict_dec(d: Dict, cur: int) -> bool {
    &&& dict_roots(d)
    &&& forall|a: usize, s: usize| #[trigger] d.contains_key((a, s)) ==> s == usize::MAX && (a <= 255 ||
            (a <= cur && d[(a, s)].code < a && d.contains_key((d[(a, s)].code, usize::MAX)) && d[(a, s)].sym <= 255))
}
pub open spec fn str_of(d: Dict, c: usize) -> Seq<u8>
    decreases c
{
    if c <= 255 { seq![c as u8] } else if d[(c, usize::MAX)].code < c { str_of(d, d[(c, usize::MAX)].code).push(d[(c, usize::MAX)].sym as u8) } else { Seq::empty() }
}
pub open spec fn str_has(d: Dict, c: int) -> bool { 0 <= c <= usize::MAX && d.contains_key((c as usize, usize::MAX)) }
pub open spec fn strs(d: Dict) -> Strings {
    IMap::new(|c: int| str_has(d, c), |c: int| str_of(d, c as usize))
}
pub proof fn lemma_str_len(d: Dict, cur: int, c: usize)
    requires dict_dec(d, cur), d.contains_key((c, usize::MAX))
    ensures str_of(d, c).len() >= 1
{
    reveal(dict_dec);
}
pub proof fn lemma_str_insert(d: Dict, n: usize, l: crate::lzw::Link, c: usize)
    requires c < n
    ensures str_of(d.insert((n, usize::MAX), l), c) == str_of(d, c)
    decreases c
{
    let e = d.insert((n, usize::MAX), l);
    if c > 255 {
        assert(e[(c, usize::MAX)] == d[(c, usize::MAX)]);
        if d[(c, usize::MAX)].code < c { lemma_str_insert(d, n, l, d[(c, usize::MAX)].code); }
    }
}
/// the decoder makes a string from one it has
pub proof fn lemma_strs_insert(d: Dict, cur: int, n: usize, p: usize, y: u8)
    requires dict_dec(d, cur), n > cur, n > 255, d.contains_key((p, usize::MAX))
    ensures
        ({
            let l = crate::lzw::Link { code: p, sym: y as usize };
            let e = d.insert((n, usize::MAX), l);
            &&& dict_dec(e, n as int)
            &&& strs(e) == strs(d).insert(n as int, str_of(d, p).push(y))
            &&& str_of(e, n) == str_of(d, p).push(y)
        }),
{
    reveal(dict_dec);
    let l = crate::lzw::Link { code: p, sym: y as usize };
    let e = d.insert((n, usize::MAX), l);
    lemma_str_insert(d, n, l, p);
    assert forall|c: int| strs(e).contains_key(c) implies strs(e)[c] == strs(d).insert(n as int, str_of(d, p).push(y))[c] by {
        if c != n { assert(d.contains_key((c as usize, usize::MAX))); lemma_str_insert(d, n, l, c as usize); }
    }
    assert(strs(e) =~= strs(d).insert(n as int, str_of(d, p).push(y)));
    assert forall|a: usize, s: usize| s == usize::MAX && a <= 255 implies #[trigger] e.contains_key((a, s)) && e[(a, s)].code == a && e[(a, s)].sym == a by {
        assert(d.contains_key((a, s)));
    }
    assert forall|a: usize, s: usize| #[trigger] e.contains_key((a, s)) implies s == usize::MAX && (a <= 255 ||
            (a <= n && e[(a, s)].code < a && e.contains_key((e[(a, s)].code, usize::MAX)) && e[(a, s)].sym <= 255)) by {
        if (a, s) != (n, usize::MAX) { assert(d.contains_key((a, s))); }
    }
}
pub proof fn lemma_dict_dec_mono(d: Dict, cur: int, cur1: int)
    requires dict_dec(d, cur), cur <= cur1
    ensures dict_dec(d, cur1)
{
    reveal(dict_dec);
}
