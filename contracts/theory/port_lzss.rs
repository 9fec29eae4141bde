// The index of the port: three arrays of links, NIL = 4096, the slots 4097.. of rson are the roots.

pub struct PX { pub d: Seq<usize>, pub l: Seq<usize>, pub r: Seq<usize> }
pub open spec fn px_opt(v: usize) -> Option<usize> { if v == 4096 { None } else { Some(v) } }
pub open spec fn px_node(s: PX, k: int) -> GN {
    let v = s.d[k];
    if v == 4096 { gn_empty() } else {
        GN { sym: if v > 4096 { Some((v - 4097) as usize) } else { None }, up: if v < 4096 { Some(v) } else { None }, l: px_opt(s.l[k]), r: px_opt(s.r[k]) }
    }
}
/// what the arrays stand for; the links of positions that are not in a tree do not count
pub open spec fn px_tv(s: PX) -> TV {
    TV { roots: Seq::new(256, |i: int| px_opt(s.r[4097 + i])), nodes: Seq::new(4096, |k: int| px_node(s, k)) }
}
pub open spec fn px_len(s: PX) -> bool { s.d.len() == 4097 && s.l.len() == 4097 && s.r.len() == 4353 }
/// the array slot that leads to k
pub open spec fn px_set(s: PX, g: int, k: int, v: usize) -> PX {
    if s.r[g] == k { PX { r: s.r.update(g, v), ..s } } else { PX { l: s.l.update(g, v), ..s } }
}
pub proof fn lemma_px_node(s: PX, rk: Seq<int>, k: int)
    requires px_len(s), tv_rk(px_tv(s), rk), 0 <= k < 4096, s.d[k] != 4096
    ensures
        s.d[k] < 4353, s.l[k] <= 4096, s.r[k] <= 4096, s.l[k] < 4096 ==> s.l[k] != s.r[k], s.l[k] != k, s.r[k] != k, s.d[k] != k,
        s.l[k] < 4096 ==> s.d[s.l[k] as int] == k && rk[s.l[k] as int] < rk[k], s.r[k] < 4096 ==> s.d[s.r[k] as int] == k && rk[s.r[k] as int] < rk[k],
        s.d[k] > 4096 ==> s.r[s.d[k] as int] == k,
        s.d[k] < 4096 ==> s.d[s.d[k] as int] != 4096 && (s.l[s.d[k] as int] == k || s.r[s.d[k] as int] == k) && s.l[s.d[k] as int] != s.r[s.d[k] as int],
        0 <= rk[k],
        px_tv(s).nodes[k] == px_node(s, k),
{
    let t = px_tv(s);
    lemma_tv_node(t, rk, k);
    if let Some(z) = t.nodes[k].sym { assert(t.roots[z as int] == px_opt(s.r[4097 + z])); }
    if let Some(q) = t.nodes[k].up { assert(t.nodes[q as int] == px_node(s, q as int)); assert(tv_node_ok(t, rk, q as int)); }
    if let Some(q) = t.nodes[k].l { assert(t.nodes[q as int] == px_node(s, q as int)); }
    if let Some(q) = t.nodes[k].r { assert(t.nodes[q as int] == px_node(s, q as int)); }
}
pub proof fn lemma_px_root(s: PX, rk: Seq<int>, z: int)
    requires px_len(s), tv_rk(px_tv(s), rk), 0 <= z < 256, s.r[4097 + z] != 4096
    ensures s.r[4097 + z] < 4096, s.d[s.r[4097 + z] as int] == 4097 + z
{
    assert(tv_root_ok(px_tv(s), z));
    assert(px_tv(s).roots[z] == px_opt(s.r[4097 + z]));
}
// ---- taking a position out
/// x (a position or NIL) takes the place of p
pub open spec fn px_swap(s: PX, p: int, x: int) -> PX {
    let a = PX { d: s.d.update(x, s.d[p]), ..s };
    let b = px_set(a, a.d[p] as int, p, x as usize);
    PX { d: b.d.update(p, 4096), ..b }
}
/// the right branch of p is hung to the right of q
pub open spec fn px_right(s: PX, p: int, q: int) -> PX {
    let r = s.r.update(q, s.r[p]);
    PX { d: s.d.update(r[p] as int, q as usize), r, ..s }
}
/// x is taken out of its place, and gets the left branch of p
pub open spec fn px_lift(s: PX, p: int, x: int) -> PX {
    let r = s.r.update(s.d[x] as int, s.l[x]);
    let d = s.d.update(s.l[x] as int, s.d[x]);
    let l = s.l.update(x, s.l[p]);
    PX { d: d.update(l[p] as int, x as usize), l, r }
}
pub proof fn lemma_px_drop(s: PX, b: Seq<u8>, p: int)
    requires px_len(s), tv_inv(px_tv(s), b), 0 <= p < 4096, s.d[p] != 4096, s.l[p] == 4096, s.r[p] == 4096
    ensures px_tv(px_swap(s, p, 4096)) == tv_drop(px_tv(s), p), px_len(px_swap(s, p, 4096))
{
    let t = px_tv(s);
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    let u = px_swap(s, p, 4096);
    lemma_px_node(s, rk, p);
    lemma_tv_unlinked(t, rk, p);
    let v = tv_drop(t, p);
    assert forall|k: int| 0 <= k < 4096 implies #[trigger] px_tv(u).nodes[k] == v.nodes[k] by {
        assert(t.nodes[k] == px_node(s, k));
        if s.d[k] != 4096 { lemma_px_node(s, rk, k); }
    }
    assert forall|z: int| 0 <= z < 256 implies #[trigger] px_tv(u).roots[z] == v.roots[z] by {
        assert(t.roots[z] == px_opt(s.r[4097 + z]));
        if s.r[4097 + z] != 4096 { lemma_px_root(s, rk, z); }
    }
    lemma_tv_eq(px_tv(u), v);
}
pub proof fn lemma_px_single(s: PX, b: Seq<u8>, p: int, x: int)
    requires px_len(s), tv_inv(px_tv(s), b), 0 <= p < 4096, s.d[p] != 4096, x != 4096, s.l[p] == x && s.r[p] == 4096 || s.r[p] == x && s.l[p] == 4096
    ensures px_tv(px_swap(s, p, x)) == tv_replace(px_tv(s), p, x), px_len(px_swap(s, p, x)), 0 <= x < 4096
{
    let t = px_tv(s);
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    let u = px_swap(s, p, x);
    lemma_px_node(s, rk, p);
    lemma_px_node(s, rk, x);
    lemma_tv_node(t, rk, p);
    assert(tv_node_col(t, b, x));
    lemma_tv_replaced(t, rk, b, p, x);
    let v = tv_replace(t, p, x);
    assert forall|k: int| 0 <= k < 4096 implies #[trigger] px_tv(u).nodes[k] == v.nodes[k] by {
        assert(t.nodes[k] == px_node(s, k));
        if s.d[k] != 4096 { lemma_px_node(s, rk, k); }
    }
    assert forall|z: int| 0 <= z < 256 implies #[trigger] px_tv(u).roots[z] == v.roots[z] by {
        assert(t.roots[z] == px_opt(s.r[4097 + z]));
        if s.r[4097 + z] != 4096 { lemma_px_root(s, rk, z); }
    }
    lemma_tv_eq(px_tv(u), v);
}
pub proof fn lemma_px_left(s: PX, b: Seq<u8>, p: int)
    requires px_len(s), tv_inv(px_tv(s), b), 0 <= p < 4096, s.d[p] != 4096, 0 <= s.l[p] < 4096, 0 <= s.r[p] < 4096, s.r[s.l[p] as int] == 4096
    ensures ({
        let x = s.l[p] as int;
        let u = px_swap(px_right(s, p, x), p, x);
        px_len(u) && px_tv(u) == tv_replace(tv_move(px_tv(s), s.r[p] as int, x, 1), p, x)
    })
{
    let t = px_tv(s);
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    let x = s.l[p] as int;
    let y = s.r[p] as int;
    let u = px_swap(px_right(s, p, x), p, x);
    lemma_px_node(s, rk, p);
    lemma_px_node(s, rk, x);
    lemma_px_node(s, rk, y);
    assert(tv_node_col(t, b, x));
    assert(tv_node_col(t, b, y));
    let r2 = rk_room(rk).update(x, 2 * rk[p]);
    lemma_tv_room(t, rk, x);
    lemma_tv_moved(t, r2, b, y, x, 1);
    let t1 = tv_move(t, y, x, 1);
    assert(t1.nodes[p].up == t.nodes[p].up);
    if let Some(z) = t.nodes[p].up { lemma_px_node(s, rk, z as int); assert(rk[p] < rk[z as int]); }
    lemma_tv_replaced(t1, r2, b, p, x);
    let v = tv_replace(t1, p, x);
    assert forall|k: int| 0 <= k < 4096 implies #[trigger] px_tv(u).nodes[k] == v.nodes[k] by {
        assert(t.nodes[k] == px_node(s, k));
        if s.d[k] != 4096 { lemma_px_node(s, rk, k); }
    }
    assert forall|z: int| 0 <= z < 256 implies #[trigger] px_tv(u).roots[z] == v.roots[z] by {
        assert(t.roots[z] == px_opt(s.r[4097 + z]));
        if s.r[4097 + z] != 4096 { lemma_px_root(s, rk, z); }
    }
    lemma_tv_eq(px_tv(u), v);
}
/// what the removal of p does when x is the right end of its left branch
pub open spec fn deep_view(t: TV, p: int, l: int, r: int, x: int, k: int) -> GN {
    let g = t.nodes[k];
    if k == p { gn_empty() }
    else if k == x { GN { sym: t.nodes[p].sym, up: t.nodes[p].up, l: Some(l as usize), r: Some(r as usize) } }
    else {
        GN {
            sym: g.sym,
            up: if k == l || k == r { Some(x as usize) } else if t.nodes[x].l == Some(k as usize) { t.nodes[x].up } else { g.up },
            l: opt_for(g.l, p, x),
            r: if g.r == Some(x as usize) { t.nodes[x].l } else { opt_for(g.r, p, x) },
        }
    }
}
pub open spec fn deep_tv(t: TV, p: int, l: int, r: int, x: int) -> TV { tv_replace(tv_move(tv_move(del_t2(t, x), l, x, 0), r, x, 1), p, x) }
pub proof fn lemma_deep_view(t: TV, b: Seq<u8>, p: int, l: int, r: int, x: int)
    requires tv_inv(t, b), 0 <= p < t.nodes.len(), gn_reg(t.nodes[p]), 0 <= l < t.nodes.len(), 0 <= r < t.nodes.len(),
        t.nodes[p].l == Some(l as usize), t.nodes[p].r == Some(r as usize), 0 <= x < t.nodes.len(), tv_below(t, x, 1, l), t.nodes[x].r is None,
    ensures ({
        let v = deep_tv(t, p, l, r, x);
        &&& v.nodes.len() == t.nodes.len()
        &&& forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] v.nodes[k] == deep_view(t, p, l, r, x, k)
        &&& v.roots =~= (match t.nodes[p].up { Some(q) => t.roots, None => t.roots.update(t.nodes[p].sym.unwrap() as int, Some(x as usize)) })
    })
{
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    lemma_tv_node(t, rk, p);
    lemma_tv_node(t, rk, x);
    lemma_del_term(t, b, p, l, r, x);
    let q = t.nodes[x].up.unwrap() as int;
    lemma_tv_node(t, rk, q);
    assert(tv_node_col(t, b, l));
    assert(tv_node_col(t, b, r));
    assert(tv_node_col(t, b, x));
    lemma_tv_cut_view(t, rk, b, x);
    let t1 = tv_cut(t, x);
    assert(t1.nodes[x].l == t.nodes[x].l && t1.nodes[x].up is None);
    assert(t1.nodes[q].r is None);
    let t2 = del_t2(t, x);
    if let Some(c) = t.nodes[x].l {
        lemma_tv_node(t, rk, c as int);
        assert(tv_node_col(t, b, c as int));
        lemma_tv_moved(t1, rk, b, c as int, q, 1);
        assert(t2 == tv_move(t1, c as int, q, 1));
    }
    assert(tv_rk(t2, rk) && tv_col(t2, b));
    assert(t2.nodes[x].up is None && t2.nodes[x].l is None && t2.nodes[x].r is None);
    assert(t2.nodes[p].up == t.nodes[p].up && t2.nodes[p].sym == t.nodes[p].sym);
    let r2 = rk.update(x, rk[p]);
    lemma_tv_raise(t2, rk, x, rk[p]);
    lemma_tv_moved(t2, r2, b, l, x, 0);
    let t3 = tv_move(t2, l, x, 0);
    lemma_tv_moved(t3, r2, b, r, x, 1);
    let t4 = tv_move(t3, r, x, 1);
    assert(t4.nodes[p].up == t.nodes[p].up) by { assert(t3.nodes[p].up == t2.nodes[p].up); }
    if let Some(z) = t.nodes[p].up { lemma_tv_node(t, rk, z as int); assert(rk[p] < rk[z as int]); }
    lemma_tv_replaced(t4, r2, b, p, x);
    let v = tv_replace(t4, p, x);
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] v.nodes[k] == deep_view(t, p, l, r, x, k) by {
        let (g1, g2, g3, g4) = (t1.nodes[k], t2.nodes[k], t3.nodes[k], t4.nodes[k]);
        lemma_tv_node(t, rk, k);
    }
}
/// x is the right end of the left branch of p
pub proof fn lemma_px_deep(s: PX, b: Seq<u8>, p: int, x: int)
    requires px_len(s), tv_inv(px_tv(s), b), 0 <= p < 4096, s.d[p] != 4096, 0 <= s.l[p] < 4096, 0 <= s.r[p] < 4096,
        0 <= x < 4096, tv_below(px_tv(s), x, 1, s.l[p] as int), s.r[x] == 4096,
    ensures ({
        let u = px_swap(px_right(px_lift(s, p, x), p, x), p, x);
        let t = px_tv(s);
        let (l, r) = (s.l[p] as int, s.r[p] as int);
        px_len(u) && px_tv(u) == tv_replace(tv_move(tv_move(del_t2(t, x), l, x, 0), r, x, 1), p, x)
    })
{
    hide(del_t2); hide(tv_move); hide(tv_replace); hide(tv_col); hide(tv_full);
    let t = px_tv(s);
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    let (l, r) = (s.l[p] as int, s.r[p] as int);
    let u = px_swap(px_right(px_lift(s, p, x), p, x), p, x);
    assert(t.nodes[x] == px_node(s, x));
    lemma_px_node(s, rk, p);
    lemma_px_node(s, rk, l);
    lemma_px_node(s, rk, r);
    lemma_px_node(s, rk, x);
    let q = s.d[x] as int;
    lemma_px_node(s, rk, q);
    lemma_deep_view(t, b, p, l, r, x);
    let v = deep_tv(t, p, l, r, x);
    if s.l[x] < 4096 { lemma_px_node(s, rk, s.l[x] as int); }
    if s.d[p] < 4096 { lemma_px_node(s, rk, s.d[p] as int); }
    assert forall|k: int| 0 <= k < 4096 implies #[trigger] px_tv(u).nodes[k] == v.nodes[k] by {
        assert(t.nodes[k] == px_node(s, k));
        if s.d[k] != 4096 { lemma_px_node(s, rk, k); }
    }
    assert forall|z: int| 0 <= z < 256 implies #[trigger] px_tv(u).roots[z] == v.roots[z] by {
        assert(t.roots[z] == px_opt(s.r[4097 + z]));
        if s.r[4097 + z] != 4096 { lemma_px_root(s, rk, z); }
    }
    lemma_tv_eq(px_tv(u), v);
}
// ---- putting a position in
pub open spec fn px_clear(s: PX, k: int) -> PX { PX { l: s.l.update(k, 4096), r: s.r.update(k, 4096), ..s } }
pub proof fn lemma_px_clear(s: PX, k: int)
    requires px_len(s), 0 <= k < 4096, s.d[k] == 4096
    ensures px_tv(px_clear(s, k)) == px_tv(s), px_len(px_clear(s, k))
{
    lemma_tv_eq(px_tv(px_clear(s, k)), px_tv(s));
}
/// below g (a position or a root), on the right or on the left
pub open spec fn px_leaf(s: PX, g: int, right: bool, k: int) -> PX {
    let d = s.d.update(k, g as usize);
    if right { PX { d, r: s.r.update(g, k as usize), ..s } } else { PX { d, l: s.l.update(g, k as usize), ..s } }
}
/// the index with position k below g
pub open spec fn px_spawned(t: TV, g: int, right: bool, k: int) -> TV {
    if g < 4096 { tv_spawn(t, g, if right { 1 } else { 0 }, k) } else { tv_spawn_root(t, g - 4097, k) }
}
pub proof fn lemma_px_leaf(s: PX, b: Seq<u8>, g: int, right: bool, k: int)
    requires px_len(s), tv_inv(px_tv(s), b), 0 <= k < 4096, s.d[k] == 4096, s.l[k] == 4096, s.r[k] == 4096,
        0 <= g < 4353, g != 4096, if right { s.r[g] == 4096 } else { g < 4096 && s.l[g] == 4096 },
        g < 4096 ==> s.d[g] != 4096 && b[g] == b[k], g > 4096 ==> b[k] == g - 4097,
    ensures ins_post(px_tv(s), b, k, px_tv(px_leaf(s, g, right, k))), px_len(px_leaf(s, g, right, k)),
        px_tv(px_leaf(s, g, right, k)) == px_spawned(px_tv(s), g, right, k),
{
    let t = px_tv(s);
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    let u = px_leaf(s, g, right, k);
    assert(t.nodes[k] == px_node(s, k));
    let side = if right { 1int } else { 0int };
    let v = if g < 4096 { tv_spawn(t, g, side, k) } else { tv_spawn_root(t, g - 4097, k) };
    if g < 4096 {
        lemma_px_node(s, rk, g);
        lemma_ins_leaf(t, b, g, side, k);
    } else {
        assert(t.roots[g - 4097] == px_opt(s.r[g]));
        lemma_ins_root(t, b, g - 4097, k);
    }
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] px_tv(u).nodes[i] == v.nodes[i] by {
        assert(t.nodes[i] == px_node(s, i));
    }
    lemma_tv_eq(px_tv(u), v);
}
/// k takes the place and the branches of p
pub open spec fn px_change(s: PX, p: int, k: int) -> PX {
    let d = s.d.update(k, s.d[p]);
    let l = s.l.update(k, s.l[p]);
    let r = s.r.update(k, s.r[p]);
    let d1 = d.update(l[p] as int, k as usize);
    let d2 = d1.update(r[p] as int, k as usize);
    let a = px_set(PX { d: d2, l, r }, d2[p] as int, p, k as usize);
    PX { d: a.d.update(p, 4096), ..a }
}
pub proof fn lemma_px_change(s: PX, b: Seq<u8>, p: int, k: int)
    requires px_len(s), tv_inv(px_tv(s), b), 0 <= k < 4096, s.d[k] == 4096, 0 <= p < 4096, s.d[p] != 4096, b[p] == b[k]
    ensures ins_post(px_tv(s), b, k, px_tv(px_change(s, p, k))), px_len(px_change(s, p, k)),
        px_tv(px_change(s, p, k)) == tv_change(px_tv(s), p, k),
{
    let t = px_tv(s);
    let rk = choose|rk: Seq<int>| tv_rk(t, rk);
    let u = px_change(s, p, k);
    assert(t.nodes[k] == px_node(s, k));
    assert(t.nodes[p] == px_node(s, p));
    assert(tv_bare(t, k));
    lemma_px_node(s, rk, p);
    lemma_tv_changed(t, rk, p, k);
    lemma_ins_change(t, b, p, k);
    let v = tv_change(t, p, k);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] px_tv(u).nodes[i] == v.nodes[i] by {
        assert(t.nodes[i] == px_node(s, i));
        if s.d[i] != 4096 { lemma_px_node(s, rk, i); }
    }
    assert forall|z: int| 0 <= z < 256 implies #[trigger] px_tv(u).roots[z] == v.roots[z] by {
        assert(t.roots[z] == px_opt(s.r[4097 + z]));
        if s.r[4097 + z] != 4096 { lemma_px_root(s, rk, z); }
    }
    lemma_tv_eq(px_tv(u), v);
}
// ---- matches
/// the bytes from c on are those from k on, n of them (in the dictionary with its mirrored beginning)
pub open spec fn px_run(dict: Seq<u8>, k: int, c: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] px_same(dict, k, c, i) }
pub open spec fn px_same(dict: Seq<u8>, k: int, c: int, i: int) -> bool { dict[k + i] == dict[c + i] }
pub open spec fn px_from(t: TV, dict: Seq<u8>, k: int, n: int, off: int, c: int) -> bool {
    0 <= c < 4096 && gn_reg(t.nodes[c]) && off == ring_back(k, 4096, c) - 1 && px_run(dict, k, c, n)
}
#[verifier::opaque]
pub open spec fn px_found(t: TV, dict: Seq<u8>, k: int, n: int, off: int) -> bool { n == 0 || exists|c: int| px_from(t, dict, k, n, off, c) }
pub proof fn lemma_px_none(t: TV, dict: Seq<u8>, k: int, off: int)
    ensures px_found(t, dict, k, 0, off)
{ reveal(px_found); }
pub proof fn lemma_px_take(t: TV, dict: Seq<u8>, k: int, n: int, off: int, c: int)
    requires 0 <= c < 4096, gn_reg(t.nodes[c]), off == ring_back(k, 4096, c) - 1, px_run(dict, k, c, n)
    ensures px_found(t, dict, k, n, off)
{ reveal(px_found); assert(px_from(t, dict, k, n, off, c)); }
/// the beginning of the ring buffer is mirrored behind its end, as far as it has been filled
pub open spec fn px_mirror_at(dict: Seq<u8>, j: int) -> bool { dict[4096 + j] == dict[j] }
#[verifier::opaque]
pub open spec fn px_mirror(dict: Seq<u8>, filled: int) -> bool {
    dict.len() == 4155 && forall|j: int| 0 <= j < 59 && j + 60 < filled ==> #[trigger] px_mirror_at(dict, j)
}
/// the state of the port between two bytes
#[verifier::opaque]
pub open spec fn px_win(p: LzP, x: Seq<u8>, done: int, len: int, dict: Seq<u8>, k: int) -> bool {
    &&& p == port_params(p.max) && p.ok() && enc_win(p, x, done, len, dict.take(4096), k)
    &&& px_mirror(dict, done + len)
    &&& done >= 0 && k == (4036 + done) % 4096
}
pub proof fn lemma_px_can_copy(t: TV, p: LzP, x: Seq<u8>, done: int, len: int, dict: Seq<u8>, k: int, ml: int, off: int)
    requires px_win(p, x, done, len, dict, k), near(t, k, 4096, 1, 4036), px_found(t, dict, k, ml, off), ml >= 0
    ensures can_copy(p, x, done, if ml < len { ml } else { len }, off)
{
    reveal(px_win);
    reveal(px_mirror);
    reveal(px_found);
    let b = dict.take(4096);
    let m = if ml < len { ml } else { len };
    reveal(can_copy);
    if m > 0 {
        let c = choose|c: int| px_from(t, dict, k, ml, off, c);
        assert(px_from(t, dict, k, ml, off, c));
        assert(0 <= k < 4096 && len <= 60 && b.len() == 4096) by { reveal(enc_win); }
        assert(near_at(t, k, 4096, 1, 4036, c)) by { reveal(near); }
        assert forall|i: int| 0 <= i < m implies #[trigger] same_at(b, k, c, i) by {
            assert(px_same(dict, k, c, i));
            lemma_ah(k, 4096, i);
            lemma_ah(c, 4096, i);
            if k + i >= 4096 { assert(px_mirror_at(dict, k + i - 4096)); }
            if c + i >= 4096 { assert(px_mirror_at(dict, c + i - 4096)); }
        }
        let d = off + 1;
        assert(ring_at(k, 4096, d) == c);
        assert forall|n: int| 0 <= n <= m implies #[trigger] lz_copy(p, x.take(done), off + 1, n as nat) == x.take(done + n) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] same_at(b, k, c, i) by {}
            lemma_copy_run(p, x, done, len, b, k, d, n);
        }
    }
}
pub proof fn lemma_px_win_facts(p: LzP, x: Seq<u8>, done: int, len: int, dict: Seq<u8>, k: int)
    requires px_win(p, x, done, len, dict, k)
    ensures dict.len() == 4155, 0 <= k < 4096, 0 <= done, 0 <= len <= 60, done + len <= x.len(), len > 0 ==> dict[k] == x[done],
        ring_ah(k, 4096, 1) == (k + 1) % 4096, ring_ah(k, 4096, 60) == (k + 60) % 4096, p.ok(), p.w == 4096, p.la == 60,
{
    reveal(px_win);
    reveal(px_mirror);
    lemma_win_facts(p, x, done, len, dict.take(4096), k);
}
pub proof fn lemma_px_win_start(p: LzP, x: Seq<u8>, len: int, dict: Seq<u8>)
    requires p == port_params(p.max), p.ok(), dict.len() == 4155, 0 <= len <= 60, len <= x.len(),
        forall|i: int| 0 <= i < 4036 ==> dict[i] == 32,
        forall|i: int| 0 <= i < len ==> dict[4036 + i] == x[i],
    ensures px_win(p, x, 0, len, dict, 4036)
{
    reveal(px_win);
    reveal(px_mirror);
    lemma_win_start(p, x, len, dict.take(4096));
}
/// the next byte comes in
pub open spec fn px_put(dict: Seq<u8>, s: int, c: u8) -> Seq<u8> {
    let d = dict.update(s, c);
    if s < 59 { d.update(s + 4096, c) } else { d }
}
pub proof fn lemma_px_win_push(p: LzP, x: Seq<u8>, done: int, dict: Seq<u8>, k: int, c: u8)
    requires px_win(p, x, done, 60, dict, k), done + 60 < x.len(), c == x[done + 60]
    ensures px_win(p, x, done + 1, 60, px_put(dict, ring_ah(k, 4096, 60), c), ring_ah(k, 4096, 1)),
        px_put(dict, ring_ah(k, 4096, 60), c).take(4096) == dict.take(4096).update(ring_ah(k, 4096, 60), c),
{
    reveal(px_win);
    reveal(px_mirror);
    let s = ring_ah(k, 4096, 60);
    let d2 = px_put(dict, s, c);
    assert(0 <= k < 4096) by { reveal(enc_win); }
    assert(d2.take(4096) =~= dict.take(4096).update(s, c));
    lemma_win_push(p, x, done, dict.take(4096), k, c);
    assert forall|j: int| 0 <= j < 59 && j + 60 < done + 61 implies #[trigger] px_mirror_at(d2, j) by {
        if j != s { assert(px_mirror_at(dict, j)); }
    }
}
pub proof fn lemma_px_win_pass(p: LzP, x: Seq<u8>, done: int, len: int, dict: Seq<u8>, k: int)
    requires px_win(p, x, done, len, dict, k), len >= 1
    ensures px_win(p, x, done + 1, len - 1, dict, ring_ah(k, 4096, 1))
{
    reveal(px_win);
    assert(0 <= k < 4096) by { reveal(enc_win); }
    lemma_win_pass(p, x, done, len, dict.take(4096), k);
}
pub proof fn lemma_px_view(s: PX, rk: Seq<int>, k: int)
    requires 0 <= k < 4096
    ensures px_tv(s).nodes[k] == px_node(s, k), px_tv(s).nodes.len() == 4096
{}
pub proof fn lemma_px_links(s: PX, k: int)
    requires 0 <= k < 4096, s.d[k] != 4096
    ensures gn_dn(px_tv(s).nodes[k], 0) == px_opt(s.l[k]), gn_dn(px_tv(s).nodes[k], 1) == px_opt(s.r[k]), px_tv(s).nodes.len() == 4096
{}
pub proof fn lemma_px_tree(s: PX, z: int)
    requires 0 <= z < 256
    ensures px_tv(s).roots[z] == px_opt(s.r[4097 + z]), px_tv(s).nodes.len() == 4096
{}
/// the modulus does nothing in the long window
pub proof fn lemma_px_long(dict: Seq<u8>, k: int, c: int, i: int)
    requires dict.len() == 4155, 0 <= k < 4096, 0 <= c < 4096, 0 <= i < 60
    ensures dict[(k + i) % (dict.len() as int)] == dict[k + i], dict[(c + i) % (dict.len() as int)] == dict[c + i]
{
    vstd::arithmetic::div_mod::lemma_small_mod((k + i) as nat, 4155);
    vstd::arithmetic::div_mod::lemma_small_mod((c + i) as nat, 4155);
}
/// going down from a position or a root
pub proof fn lemma_px_step(s: PX, rk: Seq<int>, b: Seq<u8>, g: int)
    requires px_len(s), tv_rk(px_tv(s), rk), tv_inv(px_tv(s), b), 0 <= g < 4353, g != 4096, g < 4096 ==> s.d[g] != 4096
    ensures
        s.r[g] != 4096 ==> 0 <= s.r[g] < 4096 && s.d[s.r[g] as int] != 4096 && (if g < 4096 { b[s.r[g] as int] == b[g] && 0 <= rk[s.r[g] as int] < rk[g] } else { b[s.r[g] as int] == g - 4097 }),
        g < 4096 && s.l[g] != 4096 ==> 0 <= s.l[g] < 4096 && s.d[s.l[g] as int] != 4096 && b[s.l[g] as int] == b[g] && 0 <= rk[s.l[g] as int] < rk[g],
{
    let t = px_tv(s);
    if g < 4096 {
        lemma_px_node(s, rk, g);
        if s.r[g] != 4096 { lemma_px_node(s, rk, s.r[g] as int); assert(tv_node_col(t, b, s.r[g] as int)); }
        if s.l[g] != 4096 { lemma_px_node(s, rk, s.l[g] as int); assert(tv_node_col(t, b, s.l[g] as int)); }
    } else if s.r[g] != 4096 {
        lemma_px_root(s, rk, g - 4097);
        lemma_px_node(s, rk, s.r[g] as int);
        assert(tv_node_col(t, b, s.r[g] as int));
    }
}
pub proof fn lemma_px_below(s: PX, rk: Seq<int>, x: int, l: int)
    requires px_len(s), tv_rk(px_tv(s), rk), tv_below(px_tv(s), x, 1, l), 0 <= x < 4096, s.d[x] != 4096
    ensures s.d[x] < 4096, rk[s.d[x] as int] <= rk[l], rk[x] < rk[l], s.d[s.d[x] as int] != 4096
{
    lemma_px_node(s, rk, x);
}

// ---- the long window of the port and the window that is taken modulo its length
/// the 60 bytes from c on are the same in both
pub open spec fn px_even_at(dict: Seq<u8>, c: int, i: int) -> bool { dict[c + i] == dict[(c + i) % 4096] }
pub open spec fn px_even(dict: Seq<u8>, c: int) -> bool { forall|i: int| 0 <= i < 60 ==> #[trigger] px_even_at(dict, c, i) }
pub open spec fn px_evens(t: TV, dict: Seq<u8>, c: int) -> bool { 0 <= c < 4096 && gn_reg(t.nodes[c]) ==> px_even(dict, c) }
pub proof fn lemma_run_long(b: Seq<u8>, dict: Seq<u8>, k: int, c: int, i: int)
    requires dict.len() == 4155, b == dict.take(4096), 0 <= k < 4096, 0 <= c < 4096, px_even(dict, k), px_even(dict, c), 0 <= i
    ensures run_to(dict, k, c, 60, i) == run_to(b, k, c, 60, i)
    decreases 60 - i
{
    if i < 60 {
        lemma_px_long(dict, k, c, i);
        assert(px_even_at(dict, k, i) && px_even_at(dict, c, i));
        lemma_run_long(b, dict, k, c, i + 1);
    }
}
pub proof fn lemma_run_bound(b: Seq<u8>, k: int, c: int, i: int)
    requires i <= 60
    ensures i <= run_to(b, k, c, 60, i) <= 60
    decreases 60 - i
{
    if i < 60 { lemma_run_bound(b, k, c, i + 1); }
}
pub proof fn lemma_look_long(b: Seq<u8>, dict: Seq<u8>, k: int, c: int, ml: int, mo: int)
    requires dict.len() == 4155, b == dict.take(4096), 0 <= k < 4096, 0 <= c < 4096, px_even(dict, k), px_even(dict, c)
    ensures run_side(dict, k, c, 60) == run_side(b, k, c, 60), best_of(4096, dict, k, 60, 2, ml, mo, c) == best_of(4096, b, k, 60, 2, ml, mo, c)
{
    lemma_run_long(b, dict, k, c, 1);
    lemma_run_bound(b, k, c, 1);
    let i = run_to(b, k, c, 60, 1);
    if i < 60 {
        lemma_px_long(dict, k, c, i);
        assert(px_even_at(dict, k, i) && px_even_at(dict, c, i));
    }
}
pub proof fn lemma_walk_long(t: TV, b: Seq<u8>, dict: Seq<u8>, k: int, ml: int, mo: int, c: int)
    requires tv_ok(t), t.nodes.len() == 4096, dict.len() == 4155, b == dict.take(4096), 0 <= k < 4096, 0 <= c < 4096, gn_reg(t.nodes[c]), px_even(dict, k),
        forall|c: int| #[trigger] px_evens(t, dict, c),
    ensures ins_walk(t, dict, k, 60, 2, ml, mo, c) == ins_walk(t, b, k, 60, 2, ml, mo, c)
    decreases tv_rank(t)[c]
{
    hide(best_of); hide(run_side); hide(tv_ok); hide(tv_rk);
    assert(px_evens(t, dict, c));
    lemma_look_long(b, dict, k, c, ml, mo);
    lemma_ins_walk(t, dict, k, 60, 2, ml, mo, c);
    lemma_ins_walk(t, b, k, 60, 2, ml, mo, c);
    let m = best_of(4096, b, k, 60, 2, ml, mo, c);
    let s = run_side(b, k, c, 60);
    if let Some(d) = gn_dn(t.nodes[c], s) {
        lemma_rank_down(t, c, s);
        lemma_tv_node(t, tv_rank(t), c);
        lemma_walk_long(t, b, dict, k, m.0, m.1, d as int);
    }
}
pub proof fn lemma_ins_long(t: TV, b: Seq<u8>, dict: Seq<u8>, k: int, mo: int)
    requires tv_inv(t, b), dict.len() == 4155, b == dict.take(4096), 0 <= k < 4096, px_even(dict, k), forall|c: int| #[trigger] px_evens(t, dict, c)
    ensures ins_fn(t, dict, k, 60, 2, mo) == ins_fn(t, b, k, 60, 2, mo)
{
    reveal(ins_fn);
    assert(tv_root_ok(t, b[k] as int));
    if let Some(c) = t.roots[b[k] as int] { lemma_walk_long(t, b, dict, k, 0, mo, c as int); }
}
/// before the first byte is coded
pub proof fn lemma_px_early(t: TV, b: Seq<u8>, dict: Seq<u8>, k: int, mo: int)
    requires tv_inv(t, b), dict.len() == 4155, b == dict.take(4096), 0 <= k <= 4036, within(t, k + 1, 4036)
    ensures ins_fn(t, dict, k, 60, 2, mo) == ins_fn(t, b, k, 60, 2, mo)
{
    reveal(within);
    assert forall|c: int| #[trigger] px_evens(t, dict, c) by { if 0 <= c < 4096 { assert(within_at(t, k + 1, 4036, c)); } }
    lemma_ins_long(t, b, dict, k, mo);
}
/// as long as the bytes that are compared have all come in
pub proof fn lemma_px_search(t: TV, p: LzP, x: Seq<u8>, done: int, len: int, dict: Seq<u8>, k: int, mo: int)
    requires px_win(p, x, done, len, dict, k), near(t, k, 4096, 1, 4036), tv_inv(t, dict.take(4096)), len == 60 || done + len >= 119
    ensures ins_fn(t, dict, k, 60, 2, mo) == ins_fn(t, dict.take(4096), k, 60, 2, mo)
{
    reveal(px_win);
    reveal(px_mirror);
    reveal(near);
    assert forall|c: int| (0 <= c < 4096 && (c == k || gn_reg(t.nodes[c]))) implies #[trigger] px_even(dict, c) by {
        assert(near_at(t, k, 4096, 1, 4036, c));
        assert forall|i: int| 0 <= i < 60 implies #[trigger] px_even_at(dict, c, i) by {
            if c + i >= 4096 { assert(px_mirror_at(dict, c + i - 4096)); }
        }
    }
    assert(px_even(dict, k));
    assert forall|c: int| #[trigger] px_evens(t, dict, c) by {}
    lemma_ins_long(t, dict.take(4096), dict, k, mo);
}
