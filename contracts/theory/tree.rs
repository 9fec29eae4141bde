// Binary search trees in a pool of nodes, one tree for each symbol (tools::node_pool): the state, the operations, and what they preserve.

pub struct GN { pub sym: Option<usize>, pub up: Option<usize>, pub l: Option<usize>, pub r: Option<usize> }
pub struct TV { pub roots: Seq<Option<usize>>, pub nodes: Seq<GN> }
pub open spec fn gn_empty() -> GN { GN { sym: None, up: None, l: None, r: None } }
pub open spec fn gn_dn(g: GN, s: int) -> Option<usize> { if s == 0 { g.l } else { g.r } }
pub open spec fn gn_set(g: GN, s: int, v: Option<usize>) -> GN { if s == 0 { GN { l: v, ..g } } else { GN { r: v, ..g } } }
pub open spec fn gn_reg(g: GN) -> bool { g.sym is Some || g.up is Some }
pub open spec fn gn_leaf(g: GN) -> bool { g.l is None && g.r is None }

pub open spec fn tv_put(t: TV, k: int, g: GN) -> TV { TV { roots: t.roots, nodes: t.nodes.update(k, g) } }
pub open spec fn tv_root(t: TV, s: int, v: Option<usize>) -> TV { TV { roots: t.roots.update(s, v), nodes: t.nodes } }
/// the side of q on which c hangs
pub open spec fn tv_side(t: TV, q: int, c: int) -> int { if t.nodes[q].l == Some(c as usize) { 0 } else { 1 } }
pub open spec fn tv_unlink(t: TV, c: int) -> TV {
    match t.nodes[c].up {
        Some(q) => tv_put(t, q as int, gn_set(t.nodes[q as int], tv_side(t, q as int, c), None)),
        None => t,
    }
}
pub open spec fn tv_cut(t: TV, c: int) -> TV {
    let u = tv_unlink(t, c);
    tv_put(u, c, GN { up: None, ..u.nodes[c] })
}
/// c without a parent
pub open spec fn tv_freed(t: TV, c: int) -> TV { if t.nodes[c].up is Some { tv_cut(t, c) } else { t } }
pub open spec fn tv_drop(t: TV, c: int) -> TV {
    let u = tv_unlink(t, c);
    let v = match t.nodes[c].sym { Some(s) => tv_root(u, s as int, None), None => u };
    tv_put(v, c, gn_empty())
}
pub open spec fn tv_link(t: TV, q: int, s: int, c: int) -> TV {
    let u = tv_put(t, q, gn_set(t.nodes[q], s, Some(c as usize)));
    tv_put(u, c, GN { up: Some(q as usize), ..u.nodes[c] })
}
pub open spec fn tv_link_root(t: TV, s: int, c: int) -> TV {
    let u = tv_root(t, s, Some(c as usize));
    tv_put(u, c, GN { up: None, sym: Some(s as usize), ..u.nodes[c] })
}
pub open spec fn tv_child_up(t: TV, c: Option<usize>, to: int) -> TV {
    match c { Some(k) => tv_put(t, k as int, GN { up: Some(to as usize), ..t.nodes[k as int] }), None => t }
}
pub open spec fn tv_change(t: TV, o: int, n: int) -> TV {
    let g = t.nodes[o];
    let t1 = match g.sym { Some(s) => tv_root(t, s as int, Some(n as usize)), None => t };
    let t2 = match g.up { Some(q) => tv_put(t1, q as int, gn_set(t1.nodes[q as int], tv_side(t1, q as int, o), Some(n as usize))), None => t1 };
    let t3 = tv_child_up(t2, g.l, n);
    let t4 = tv_child_up(t3, g.r, n);
    let t5 = tv_put(t4, n, t4.nodes[o]);
    tv_put(t5, o, gn_empty())
}

pub open spec fn tv_son_ok(t: TV, rk: Seq<int>, k: int, c: int) -> bool {
    c < t.nodes.len() && t.nodes[c].up == Some(k as usize) && t.nodes[c].sym is None && rk[c] < rk[k]
}
pub open spec fn tv_node_ok(t: TV, rk: Seq<int>, k: int) -> bool {
    let g = t.nodes[k];
    &&& g.l matches Some(c) ==> tv_son_ok(t, rk, k, c as int)
    &&& g.r matches Some(c) ==> tv_son_ok(t, rk, k, c as int)
    &&& g.l is Some ==> g.l != g.r
    &&& g.up matches Some(q) ==> q < t.nodes.len() && (t.nodes[q as int].l == Some(k as usize) || t.nodes[q as int].r == Some(k as usize))
    &&& g.sym matches Some(s) ==> s < t.roots.len() && t.roots[s as int] == Some(k as usize) && g.up is None
    &&& rk[k] >= 0
}
pub open spec fn tv_root_ok(t: TV, s: int) -> bool {
    t.roots[s] matches Some(k) ==> k < t.nodes.len() && t.nodes[k as int].sym == Some(s as usize)
}
/// the links fit together, and ranks go down along them
pub open spec fn tv_rk(t: TV, rk: Seq<int>) -> bool {
    &&& rk.len() == t.nodes.len() && t.nodes.len() <= 0x1_0000 && t.roots.len() <= 0x1_0000
    &&& forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] tv_node_ok(t, rk, k)
    &&& forall|s: int| 0 <= s < t.roots.len() ==> #[trigger] tv_root_ok(t, s)
}
pub open spec fn tv_ok(t: TV) -> bool { exists|rk: Seq<int>| tv_rk(t, rk) }
/// every node stands for a position with the symbol of its tree
pub open spec fn tv_node_col(t: TV, b: Seq<u8>, k: int) -> bool {
    &&& t.nodes[k].up matches Some(q) ==> b[k] == b[q as int]
    &&& t.nodes[k].sym matches Some(s) ==> b[k] as int == s
}
pub open spec fn tv_col(t: TV, b: Seq<u8>) -> bool { forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] tv_node_col(t, b, k) }
/// nodes that are not in a tree have nothing below them
pub open spec fn tv_bare(t: TV, k: int) -> bool { gn_reg(t.nodes[k]) || gn_leaf(t.nodes[k]) }
pub open spec fn tv_full(t: TV) -> bool { forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] tv_bare(t, k) }

pub proof fn lemma_tv_node(t: TV, rk: Seq<int>, k: int)
    requires tv_rk(t, rk), 0 <= k < t.nodes.len()
    ensures tv_node_ok(t, rk, k), t.nodes[k].l matches Some(c) ==> tv_node_ok(t, rk, c as int), t.nodes[k].r matches Some(c) ==> tv_node_ok(t, rk, c as int),
        t.nodes[k].up matches Some(c) ==> tv_node_ok(t, rk, c as int),
        t.nodes[k].up != Some(k as usize), t.nodes[k].l != Some(k as usize), t.nodes[k].r != Some(k as usize),
{
    assert(tv_node_ok(t, rk, k));
}
pub proof fn lemma_tv_unlinked(t: TV, rk: Seq<int>, c: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len()
    ensures ({
        let u = tv_unlink(t, c);
        &&& u.nodes.len() == t.nodes.len() && u.roots == t.roots
        &&& u.nodes[c] == t.nodes[c]
        &&& forall|k: int| 0 <= k < t.nodes.len() ==> {
            &&& (#[trigger] u.nodes[k]).up == t.nodes[k].up && u.nodes[k].sym == t.nodes[k].sym
            &&& u.nodes[k].l == (if t.nodes[k].l == Some(c as usize) { None } else { t.nodes[k].l })
            &&& u.nodes[k].r == (if t.nodes[k].r == Some(c as usize) { None } else { t.nodes[k].r })
        }
    })
{
    lemma_tv_node(t, rk, c);
    let u = tv_unlink(t, c);
    assert forall|k: int| 0 <= k < t.nodes.len() implies {
            &&& (#[trigger] u.nodes[k]).up == t.nodes[k].up && u.nodes[k].sym == t.nodes[k].sym
            &&& u.nodes[k].l == (if t.nodes[k].l == Some(c as usize) { None } else { t.nodes[k].l })
            &&& u.nodes[k].r == (if t.nodes[k].r == Some(c as usize) { None } else { t.nodes[k].r })
        } by {
        assert(tv_node_ok(t, rk, k));
    }
}
pub proof fn lemma_tv_cut(t: TV, rk: Seq<int>, c: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len(), t.nodes[c].sym is None
    ensures tv_rk(tv_cut(t, c), rk), tv_cut(t, c).nodes[c].up is None, tv_cut(t, c).nodes[c].l == t.nodes[c].l, tv_cut(t, c).nodes[c].r == t.nodes[c].r, tv_cut(t, c).roots == t.roots,
        tv_cut(t, c).nodes[c].sym is None,
{
    lemma_tv_unlinked(t, rk, c);
    let u = tv_cut(t, c);
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_ok(u, rk, k) by {
        assert(tv_node_ok(t, rk, k));
    }
    assert forall|s: int| 0 <= s < u.roots.len() implies #[trigger] tv_root_ok(u, s) by {
        assert(tv_root_ok(t, s));
    }
}
pub proof fn lemma_tv_drop(t: TV, rk: Seq<int>, c: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len(), gn_leaf(t.nodes[c])
    ensures tv_rk(tv_drop(t, c), rk)
{
    lemma_tv_unlinked(t, rk, c);
    assert(tv_node_ok(t, rk, c));
    let u = tv_drop(t, c);
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_ok(u, rk, k) by {
        assert(tv_node_ok(t, rk, k));
    }
    assert forall|s: int| 0 <= s < u.roots.len() implies #[trigger] tv_root_ok(u, s) by {
        assert(tv_root_ok(t, s));
    }
}
pub proof fn lemma_tv_link(t: TV, rk: Seq<int>, q: int, s: int, c: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len(), 0 <= q < t.nodes.len(), q != c, 0 <= s <= 1, gn_dn(t.nodes[q], s) is None, !gn_reg(t.nodes[c]), rk[c] < rk[q]
    ensures tv_rk(tv_link(t, q, s, c), rk)
{
    let u = tv_link(t, q, s, c);
    assert(tv_node_ok(t, rk, q));
    assert(tv_node_ok(t, rk, c));
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_ok(u, rk, k) by {
        assert(tv_node_ok(t, rk, k));
    }
    assert forall|s: int| 0 <= s < u.roots.len() implies #[trigger] tv_root_ok(u, s) by {
        assert(tv_root_ok(t, s));
    }
}
pub proof fn lemma_tv_link_root(t: TV, rk: Seq<int>, s: int, c: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len(), 0 <= s < t.roots.len(), t.roots[s] is None, !gn_reg(t.nodes[c])
    ensures tv_rk(tv_link_root(t, s, c), rk)
{
    let u = tv_link_root(t, s, c);
    assert(tv_node_ok(t, rk, c));
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_ok(u, rk, k) by {
        assert(tv_node_ok(t, rk, k));
    }
    assert forall|z: int| 0 <= z < u.roots.len() implies #[trigger] tv_root_ok(u, z) by {
        assert(tv_root_ok(t, z));
    }
}
/// a node that hangs nowhere may get any higher rank
pub proof fn lemma_tv_raise(t: TV, rk: Seq<int>, c: int, v: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len(), t.nodes[c].up is None, v >= rk[c]
    ensures tv_rk(t, rk.update(c, v))
{
    let r2 = rk.update(c, v);
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_node_ok(t, r2, k) by {
        assert(tv_node_ok(t, rk, k));
    }
}
pub open spec fn rk_room(rk: Seq<int>) -> Seq<int> { Seq::new(rk.len(), |i: int| 2 * rk[i] + 1) }
/// there is room between a node and its parent
pub proof fn lemma_tv_room(t: TV, rk: Seq<int>, c: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len(), t.nodes[c].up is Some
    ensures tv_rk(t, rk_room(rk).update(c, 2 * rk[t.nodes[c].up.unwrap() as int])),
        rk_room(rk).len() == rk.len(),
{
    let q = t.nodes[c].up.unwrap();
    let r2 = rk_room(rk).update(c, 2 * rk[q as int]);
    assert(tv_node_ok(t, rk, c));
    assert(tv_node_ok(t, rk, q as int));
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_node_ok(t, r2, k) by {
        assert(tv_node_ok(t, rk, k));
    }
}
/// a new leaf fits anywhere
pub proof fn lemma_tv_leaf_rank(t: TV, rk: Seq<int>, c: int)
    requires tv_rk(t, rk), 0 <= c < t.nodes.len(), !gn_reg(t.nodes[c]), gn_leaf(t.nodes[c])
    ensures tv_rk(t, rk_room(rk).update(c, 0)), forall|k: int| 0 <= k < rk.len() && k != c ==> rk_room(rk).update(c, 0)[k] > 0
{
    let r2 = rk_room(rk).update(c, 0);
    assert(tv_node_ok(t, rk, c));
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_node_ok(t, r2, k) by {
        assert(tv_node_ok(t, rk, k));
    }
    assert forall|k: int| 0 <= k < rk.len() && k != c implies r2[k] > 0 by { assert(tv_node_ok(t, rk, k)); }
}
pub proof fn lemma_tv_changed(t: TV, rk: Seq<int>, o: int, n: int)
    requires tv_rk(t, rk), 0 <= o < t.nodes.len(), 0 <= n < t.nodes.len(), o != n, !gn_reg(t.nodes[n]), gn_leaf(t.nodes[n])
    ensures ({
        let u = tv_change(t, o, n);
        let f = |v: Option<usize>| if v == Some(o as usize) { Some(n as usize) } else { v };
        &&& u.nodes.len() == t.nodes.len() && u.roots.len() == t.roots.len()
        &&& forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] u.nodes[k] == (if k == o { gn_empty() } else {
                let g = t.nodes[if k == n { o } else { k }];
                GN { sym: g.sym, up: f(g.up), l: f(g.l), r: f(g.r) } })
        &&& forall|s: int| 0 <= s < t.roots.len() ==> #[trigger] u.roots[s] == f(t.roots[s])
    })
{
    let u = tv_change(t, o, n);
    let f = |v: Option<usize>| if v == Some(o as usize) { Some(n as usize) } else { v };
    lemma_tv_node(t, rk, o);
    lemma_tv_node(t, rk, n);
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] u.nodes[k] == (if k == o { gn_empty() } else {
                let g = t.nodes[if k == n { o } else { k }];
                GN { sym: g.sym, up: f(g.up), l: f(g.l), r: f(g.r) } }) by {
        lemma_tv_node(t, rk, k);
    }
    assert forall|s: int| 0 <= s < t.roots.len() implies #[trigger] u.roots[s] == f(t.roots[s]) by {
        assert(tv_root_ok(t, s));
    }
}
pub proof fn lemma_tv_change(t: TV, rk: Seq<int>, o: int, n: int)
    requires tv_rk(t, rk), 0 <= o < t.nodes.len(), 0 <= n < t.nodes.len(), o != n, !gn_reg(t.nodes[n]), gn_leaf(t.nodes[n])
    ensures tv_rk(tv_change(t, o, n), rk.update(n, rk[o]))
{
    let u = tv_change(t, o, n);
    let r2 = rk.update(n, rk[o]);
    lemma_tv_changed(t, rk, o, n);
    assert(tv_node_ok(t, rk, o));
    assert(tv_node_ok(t, rk, n));
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_ok(u, r2, k) by {
        lemma_tv_node(t, rk, k);
        lemma_tv_node(t, rk, o);
    }
    assert forall|s: int| 0 <= s < u.roots.len() implies #[trigger] tv_root_ok(u, s) by {
        assert(tv_root_ok(t, s));
        if t.roots[s] == Some(o as usize) { }
    }
}
/// k ends the chain that goes down from c on the one side
pub open spec fn tv_below(t: TV, k: int, s: int, c: int) -> bool {
    &&& t.nodes[k].up matches Some(q) && q < t.nodes.len() && gn_dn(t.nodes[q as int], s) == Some(k as usize)
            && (forall|rk: Seq<int>| #[trigger] tv_rk(t, rk) ==> rk[q as int] <= rk[c])
    &&& forall|rk: Seq<int>| #[trigger] tv_rk(t, rk) ==> rk[k] < rk[c]
    &&& forall|b: Seq<u8>| #[trigger] tv_col(t, b) ==> b[k] == b[c]
}
pub proof fn lemma_tv_below(t: TV, k: int, s: int, c: int, k2: int)
    requires tv_ok(t), 0 <= k < t.nodes.len(), 0 <= c < t.nodes.len(), k == c || tv_below(t, k, s, c), gn_dn(t.nodes[k], s) == Some(k2 as usize), 0 <= k2 <= usize::MAX
    ensures 0 <= k2 < t.nodes.len(), tv_below(t, k2, s, c), forall|rk: Seq<int>| #[trigger] tv_rk(t, rk) ==> rk[k2] < rk[k]
{
    let r0 = choose|rk: Seq<int>| tv_rk(t, rk);
    lemma_tv_node(t, r0, k);
    assert forall|rk: Seq<int>| #[trigger] tv_rk(t, rk) implies rk[k2] < rk[c] && rk[k2] < rk[k] && rk[k] <= rk[c] by { lemma_tv_node(t, rk, k); }
    assert forall|b: Seq<u8>| #[trigger] tv_col(t, b) implies b[k2] == b[c] by { assert(tv_node_col(t, b, k2)); }
}
pub open spec fn opt_not(v: Option<usize>, c: int) -> Option<usize> { if v == Some(c as usize) { None } else { v } }
pub open spec fn opt_for(v: Option<usize>, c: int, x: int) -> Option<usize> { if v == Some(c as usize) { Some(x as usize) } else { v } }
pub open spec fn tv_cut_view(t: TV, c: int, u: TV) -> bool {
    &&& u.nodes.len() == t.nodes.len() && u.roots == t.roots
    &&& forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] u.nodes[k] == (GN { sym: t.nodes[k].sym, up: if k == c { None } else { t.nodes[k].up }, l: opt_not(t.nodes[k].l, c), r: opt_not(t.nodes[k].r, c) })
}
pub proof fn lemma_tv_cut_view(t: TV, rk: Seq<int>, b: Seq<u8>, c: int)
    requires tv_rk(t, rk), tv_col(t, b), 0 <= c < t.nodes.len(), t.nodes[c].sym is None
    ensures tv_cut_view(t, c, tv_cut(t, c)), tv_rk(tv_cut(t, c), rk), tv_col(tv_cut(t, c), b)
{
    lemma_tv_unlinked(t, rk, c);
    lemma_tv_cut(t, rk, c);
    let u = tv_cut(t, c);
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_col(u, b, k) by { assert(tv_node_col(t, b, k)); }
}
pub open spec fn tv_move(t: TV, c: int, q: int, s: int) -> TV { tv_link(tv_freed(t, c), q, s, c) }
pub open spec fn tv_move_view(t: TV, c: int, q: int, s: int, u: TV) -> bool {
    &&& u.nodes.len() == t.nodes.len() && u.roots == t.roots
    &&& forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] u.nodes[k] == (GN { sym: t.nodes[k].sym, up: if k == c { Some(q as usize) } else { t.nodes[k].up },
            l: if k == q && s == 0 { Some(c as usize) } else { opt_not(t.nodes[k].l, c) }, r: if k == q && s == 1 { Some(c as usize) } else { opt_not(t.nodes[k].r, c) } })
}
/// a branch hung elsewhere
pub proof fn lemma_tv_moved(t: TV, rk: Seq<int>, b: Seq<u8>, c: int, q: int, s: int)
    requires
        tv_rk(t, rk), tv_col(t, b), 0 <= c < t.nodes.len(), 0 <= q < t.nodes.len(), q != c, 0 <= s <= 1, t.nodes[c].sym is None,
        gn_dn(t.nodes[q], s) is None, rk[c] < rk[q], b[c] == b[q],
    ensures tv_move_view(t, c, q, s, tv_move(t, c, q, s)), tv_rk(tv_move(t, c, q, s), rk), tv_col(tv_move(t, c, q, s), b)
{
    let v = tv_freed(t, c);
    let u = tv_move(t, c, q, s);
    lemma_tv_unlinked(t, rk, c);
    lemma_tv_cut_view(t, rk, b, c);
    assert(tv_cut(t, c).nodes.len() == t.nodes.len());
    assert(tv_rk(v, rk) && tv_col(v, b));
    lemma_tv_link(v, rk, q, s, c);
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_col(u, b, k) by { assert(tv_node_col(v, b, k)); }
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] u.nodes[k] == (GN { sym: t.nodes[k].sym, up: if k == c { Some(q as usize) } else { t.nodes[k].up },
            l: if k == q && s == 0 { Some(c as usize) } else { opt_not(t.nodes[k].l, c) }, r: if k == q && s == 1 { Some(c as usize) } else { opt_not(t.nodes[k].r, c) } }) by {
        assert(tv_node_ok(t, rk, k));
        assert(tv_node_ok(t, rk, c));
    }
}
/// x in the place of p
pub open spec fn tv_replace(t: TV, p: int, x: int) -> TV {
    let u = tv_drop(tv_freed(t, x), p);
    match t.nodes[p].up {
        Some(q) => tv_link(u, q as int, tv_side(t, q as int, p), x),
        None => tv_link_root(u, t.nodes[p].sym.unwrap() as int, x),
    }
}
pub open spec fn tv_replace_view(t: TV, p: int, x: int, u: TV) -> bool {
    &&& u.nodes.len() == t.nodes.len() && u.roots.len() == t.roots.len()
    &&& forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] u.nodes[k] == (if k == p { gn_empty() } else if k == x { GN { sym: t.nodes[p].sym, up: t.nodes[p].up, l: t.nodes[x].l, r: t.nodes[x].r } } else {
            GN { sym: t.nodes[k].sym, up: t.nodes[k].up, l: opt_for(t.nodes[k].l, p, x), r: opt_for(t.nodes[k].r, p, x) } })
}
pub open spec fn tv_only(v: Option<usize>, x: int) -> bool { v is None || v == Some(x as usize) }
pub proof fn lemma_tv_replaced(t: TV, rk: Seq<int>, b: Seq<u8>, p: int, x: int)
    requires
        tv_rk(t, rk), tv_col(t, b), 0 <= p < t.nodes.len(), 0 <= x < t.nodes.len(), p != x, gn_reg(t.nodes[p]),
        tv_only(t.nodes[p].l, x), tv_only(t.nodes[p].r, x), t.nodes[x].sym is None, tv_only(t.nodes[x].up, p),
        t.nodes[p].up matches Some(q) ==> rk[x] < rk[q as int], b[x] == b[p],
    ensures
        tv_replace_view(t, p, x, tv_replace(t, p, x)), tv_rk(tv_replace(t, p, x), rk), tv_col(tv_replace(t, p, x), b),
        gn_leaf(tv_freed(t, x).nodes[p]),
        t.nodes[p].up matches Some(q) ==> q != x && gn_dn(t.nodes[q as int], tv_side(t, q as int, p)) == Some(p as usize),
{
    lemma_tv_node(t, rk, p);
    lemma_tv_node(t, rk, x);
    lemma_tv_cut_view(t, rk, b, x);
    let v = tv_freed(t, x);
    assert(v.nodes.len() == t.nodes.len());
    assert(tv_rk(v, rk) && tv_col(v, b));
    assert(v.nodes[p].l is None && v.nodes[p].r is None);
    lemma_tv_drop(v, rk, p);
    lemma_tv_unlinked(v, rk, p);
    let w = tv_drop(v, p);
    let u = tv_replace(t, p, x);
    match t.nodes[p].up {
        Some(q) => {
            lemma_tv_node(t, rk, q as int);
            let s = tv_side(t, q as int, p);
            assert(gn_dn(w.nodes[q as int], s) is None);
            lemma_tv_link(w, rk, q as int, s, x);
        },
        None => {
            let s = t.nodes[p].sym.unwrap() as int;
            assert(w.roots[s] is None);
            lemma_tv_link_root(w, rk, s, x);
        },
    }
    assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] u.nodes[k] == (if k == p { gn_empty() } else if k == x { GN { sym: t.nodes[p].sym, up: t.nodes[p].up, l: t.nodes[x].l, r: t.nodes[x].r } } else {
            GN { sym: t.nodes[k].sym, up: t.nodes[k].up, l: opt_for(t.nodes[k].l, p, x), r: opt_for(t.nodes[k].r, p, x) } }) by {
        lemma_tv_node(t, rk, k);
    }
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_col(u, b, k) by {
        assert(tv_node_col(t, b, k));
        assert(tv_node_col(t, b, p));
        lemma_tv_node(t, rk, k);
    }
}
/// an index of the positions of a window b
pub open spec fn tv_inv(t: TV, b: Seq<u8>) -> bool {
    tv_ok(t) && tv_full(t) && tv_col(t, b) && t.nodes.len() == b.len() && t.roots.len() == 256
}
/// between two steps: x may hang loose with branches below it, nothing new is in a tree
pub open spec fn tv_mid(t0: TV, t: TV, x: int, k: int) -> bool { (gn_reg(t.nodes[k]) ==> gn_reg(t0.nodes[k])) && (k == x || tv_bare(t, k)) }
pub open spec fn tv_grown(t0: TV, t: TV) -> bool { forall|k: int| 0 <= k < t.nodes.len() && gn_reg(#[trigger] t.nodes[k]) ==> gn_reg(t0.nodes[k]) }
/// position p has left the index, the rest is in order, and nothing new is in it
#[verifier::opaque]
pub open spec fn del_post(t0: TV, b: Seq<u8>, p: int, t: TV) -> bool {
    tv_inv(t, b) && !gn_reg(t.nodes[p]) && t.nodes.len() == t0.nodes.len() && tv_grown(t0, t)
}
pub open spec fn del_rank(t: TV, rk: Seq<int>, p: int, x: int) -> bool {
    tv_rk(t, rk) && (t.nodes[p].up matches Some(q) ==> rk[x] < rk[q as int])
}
/// x is ready to take the place of p
#[verifier::opaque]
pub open spec fn del_mid(t0: TV, b: Seq<u8>, p: int, x: int, t: TV) -> bool {
    &&& exists|rk: Seq<int>| del_rank(t, rk, p, x)
    &&& tv_col(t, b) && t.nodes.len() == b.len() && t.roots.len() == 256 && t.nodes.len() == t0.nodes.len()
    &&& 0 <= p < t.nodes.len() && 0 <= x < t.nodes.len() && p != x && gn_reg(t.nodes[p]) && gn_reg(t0.nodes[x])
    &&& tv_only(t.nodes[p].l, x) && tv_only(t.nodes[p].r, x) && t.nodes[x].sym is None && tv_only(t.nodes[x].up, p)
    &&& b[x] == b[p]
    &&& forall|k: int| 0 <= k < t.nodes.len() ==> #[trigger] tv_mid(t0, t, x, k)
}
pub proof fn lemma_del_leaf(t0: TV, b: Seq<u8>, p: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), gn_leaf(t0.nodes[p])
    ensures del_post(t0, b, p, tv_drop(t0, p))
{
    reveal(del_post);
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    lemma_tv_drop(t0, rk, p);
    lemma_tv_unlinked(t0, rk, p);
    let u = tv_drop(t0, p);
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_col(u, b, k) by { assert(tv_node_col(t0, b, k)); }
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_bare(u, k) by { assert(tv_bare(t0, k)); assert(tv_node_ok(t0, rk, k)); }
    assert(tv_node_ok(t0, rk, p));
}
pub proof fn lemma_del_free(t0: TV, b: Seq<u8>, p: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), !gn_reg(t0.nodes[p])
    ensures del_post(t0, b, p, t0)
{
    reveal(del_post);
}
pub proof fn lemma_del_single(t0: TV, b: Seq<u8>, p: int, x: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), gn_reg(t0.nodes[p]), 0 <= x <= usize::MAX,
        (t0.nodes[p].l == Some(x as usize) && t0.nodes[p].r is None) || (t0.nodes[p].l is None && t0.nodes[p].r == Some(x as usize)),
    ensures del_mid(t0, b, p, x, t0)
{
    reveal(del_mid);
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    lemma_tv_node(t0, rk, p);
    assert(tv_node_col(t0, b, x));
    assert(del_rank(t0, rk, p, x));
    assert forall|k: int| 0 <= k < t0.nodes.len() implies #[trigger] tv_mid(t0, t0, x, k) by { assert(tv_bare(t0, k)); }
}
pub proof fn lemma_del_left(t0: TV, b: Seq<u8>, p: int, l: int, r: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), gn_reg(t0.nodes[p]), 0 <= l <= usize::MAX, 0 <= r <= usize::MAX,
        t0.nodes[p].l == Some(l as usize), t0.nodes[p].r == Some(r as usize),
    ensures
        l < t0.nodes.len(), r < t0.nodes.len(), l != r, t0.nodes[r].sym is None, t0.nodes[l].sym is None,
        t0.nodes[l].r is None ==> del_mid(t0, b, p, l, tv_move(t0, r, l, 1)),
{
    reveal(del_mid);
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    lemma_tv_node(t0, rk, p);
    if t0.nodes[l].r is None {
        let r2 = rk_room(rk).update(l, 2 * rk[p]);
        lemma_tv_room(t0, rk, l);
        assert(tv_node_col(t0, b, l));
        assert(tv_node_col(t0, b, r));
        lemma_tv_moved(t0, r2, b, r, l, 1);
        let t = tv_move(t0, r, l, 1);
        assert(t.nodes[p].up == t0.nodes[p].up);
        assert(del_rank(t, r2, p, l));
        assert forall|k: int| 0 <= k < t.nodes.len() implies #[trigger] tv_mid(t0, t, l, k) by { assert(tv_bare(t0, k)); }
    }
}
pub open spec fn del_t1(t0: TV, x: int) -> TV { tv_cut(t0, x) }
pub open spec fn del_t2(t0: TV, x: int) -> TV {
    let t1 = tv_cut(t0, x);
    match t1.nodes[x].l { Some(c) => tv_move(t1, c as int, t0.nodes[x].up.unwrap() as int, 1), None => t1 }
}
/// the right end x of the left branch is taken out, and gets the branches of p
pub proof fn lemma_del_term(t0: TV, b: Seq<u8>, p: int, l: int, r: int, x: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), gn_reg(t0.nodes[p]), 0 <= l < t0.nodes.len(), 0 <= r < t0.nodes.len(),
        t0.nodes[p].l == Some(l as usize), t0.nodes[p].r == Some(r as usize), 0 <= x < t0.nodes.len(), tv_below(t0, x, 1, l), t0.nodes[x].r is None,
    ensures ({
        let t1 = tv_cut(t0, x);
        let t2 = del_t2(t0, x);
        let t3 = tv_move(t2, l, x, 0);
        let q = t0.nodes[x].up;
        &&& q is Some && q.unwrap() < t0.nodes.len() && x != l && x != r
        &&& tv_ok(t1) && t1.nodes.len() == t0.nodes.len() && t1.nodes[x].r is None && t1.nodes[q.unwrap() as int].r is None
        &&& t1.nodes[x].l matches Some(c) ==> c < t0.nodes.len() && t1.nodes[c as int].sym is None && c != q.unwrap()
        &&& tv_ok(t2) && t2.nodes.len() == t0.nodes.len() && t2.nodes[l].sym is None && t2.nodes[x].l is None
        &&& tv_ok(t3) && t3.nodes.len() == t0.nodes.len() && t3.nodes[r].sym is None && t3.nodes[x].r is None
        &&& del_mid(t0, b, p, x, tv_move(t3, r, x, 1))
    })
{
    reveal(del_mid);
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    lemma_tv_node(t0, rk, p);
    lemma_tv_node(t0, rk, x);
    let q = t0.nodes[x].up.unwrap() as int;
    lemma_tv_node(t0, rk, q);
    assert(tv_node_col(t0, b, l));
    assert(tv_node_col(t0, b, r));
    assert(tv_node_col(t0, b, x));
    assert(rk[x] < rk[l] && rk[q] <= rk[l] && rk[l] < rk[p] && rk[r] < rk[p]);
    lemma_tv_cut_view(t0, rk, b, x);
    let t1 = tv_cut(t0, x);
    assert(t1.nodes[q].r is None);
    assert(t1.nodes[x].up is None && t1.nodes[x].r is None && t1.nodes[x].l == t0.nodes[x].l);
    let t2 = del_t2(t0, x);
    if let Some(c) = t1.nodes[x].l {
        lemma_tv_node(t1, rk, x);
        assert(tv_node_col(t0, b, c as int));
        lemma_tv_moved(t1, rk, b, c as int, q, 1);
        assert(t2 == tv_move(t1, c as int, q, 1));
    }
    assert(tv_rk(t2, rk) && tv_col(t2, b));
    assert(t2.nodes[x].up is None && t2.nodes[x].l is None && t2.nodes[x].r is None);
    assert(t2.nodes[p].l == Some(l as usize) && t2.nodes[p].r == Some(r as usize) && t2.nodes[p].up == t0.nodes[p].up && t2.nodes[p].sym == t0.nodes[p].sym);
    let r2 = rk.update(x, rk[p]);
    lemma_tv_raise(t2, rk, x, rk[p]);
    lemma_tv_moved(t2, r2, b, l, x, 0);
    let t3 = tv_move(t2, l, x, 0);
    lemma_tv_moved(t3, r2, b, r, x, 1);
    let t4 = tv_move(t3, r, x, 1);
    assert(del_rank(t4, r2, p, x)) by {
        if let Some(z) = t0.nodes[p].up { assert(rk[p] < rk[z as int]); assert(z != x); }
    }
    assert forall|k: int| 0 <= k < t4.nodes.len() implies #[trigger] tv_mid(t0, t4, x, k) by { assert(tv_bare(t0, k)); assert(tv_node_ok(t0, rk, k)); }
}
pub proof fn lemma_del_done(t0: TV, b: Seq<u8>, p: int, x: int, t: TV)
    requires del_mid(t0, b, p, x, t)
    ensures
        tv_ok(t), t.nodes.len() == t0.nodes.len(), 0 <= p < t.nodes.len(), 0 <= x < t.nodes.len(), t.nodes[x].sym is None, p != x,
        gn_leaf(tv_freed(t, x).nodes[p]),
        match t.nodes[p].up {
            Some(q) => q != x && q < t.nodes.len() && gn_dn(t.nodes[q as int], tv_side(t, q as int, p)) == Some(p as usize),
            None => t.nodes[p].sym matches Some(s) && s < t.roots.len() && t.roots[s as int] == Some(p as usize),
        },
        del_post(t0, b, p, tv_replace(t, p, x)),
{
    reveal(del_mid);
    reveal(del_post);
    let rk = choose|rk: Seq<int>| del_rank(t, rk, p, x);
    lemma_tv_replaced(t, rk, b, p, x);
    lemma_tv_node(t, rk, p);
    let u = tv_replace(t, p, x);
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_bare(u, k) by { assert(tv_mid(t0, t, x, k)); assert(tv_bare(t, k) || k == x); }
    assert forall|k: int| 0 <= k < u.nodes.len() && gn_reg(#[trigger] u.nodes[k]) implies gn_reg(t0.nodes[k]) by { assert(tv_mid(t0, t, x, k)); }
}
pub proof fn lemma_del_start(t0: TV, b: Seq<u8>, p: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len()
    ensures
        tv_ok(t0), t0.nodes.len() == b.len(), t0.roots.len() == 256,
        !gn_reg(t0.nodes[p]) ==> del_post(t0, b, p, t0),
        gn_reg(t0.nodes[p]) ==> match (t0.nodes[p].l, t0.nodes[p].r) {
                (None, None) => del_post(t0, b, p, tv_drop(t0, p)),
                (Some(x), None) => x < t0.nodes.len() && del_mid(t0, b, p, x as int, t0),
                (None, Some(x)) => x < t0.nodes.len() && del_mid(t0, b, p, x as int, t0),
                (Some(l), Some(r)) => l < t0.nodes.len() && r < t0.nodes.len() && l != r && t0.nodes[r as int].sym is None && t0.nodes[l as int].sym is None
                    && (t0.nodes[l as int].r is None ==> del_mid(t0, b, p, l as int, tv_move(t0, r as int, l as int, 1))),
            },
{
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    lemma_tv_node(t0, rk, p);
    if !gn_reg(t0.nodes[p]) { lemma_del_free(t0, b, p); }
    else { match (t0.nodes[p].l, t0.nodes[p].r) {
        (None, None) => { lemma_del_leaf(t0, b, p); },
        (Some(x), None) => { lemma_del_single(t0, b, p, x as int); },
        (None, Some(x)) => { lemma_del_single(t0, b, p, x as int); },
        (Some(l), Some(r)) => { lemma_del_left(t0, b, p, l as int, r as int); },
    } }
}
// ---- finding a match, and putting a position into the index
pub open spec fn same_at(b: Seq<u8>, pos: int, c: int, i: int) -> bool { b[(pos + i) % (b.len() as int)] == b[(c + i) % (b.len() as int)] }
/// the bytes from c on are those from pos on, n of them
pub open spec fn same_run(b: Seq<u8>, pos: int, c: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] same_at(b, pos, c, i) }
pub open spec fn match_from(t: TV, b: Seq<u8>, pos: int, n: int, off: int, c: int) -> bool {
    0 <= c < b.len() && gn_reg(t.nodes[c]) && off == (pos - c) % (b.len() as int) - 1 && same_run(b, pos, c, n)
}
/// what the search reports: nothing, or an indexed position that matches
#[verifier::opaque]
pub open spec fn match_found(t: TV, b: Seq<u8>, pos: int, n: int, off: int) -> bool { n == 0 || exists|c: int| match_from(t, b, pos, n, off, c) }
pub proof fn lemma_match_none(t: TV, b: Seq<u8>, pos: int, off: int)
    ensures match_found(t, b, pos, 0, off)
{ reveal(match_found); }
pub proof fn lemma_match_take(t: TV, b: Seq<u8>, pos: int, n: int, c: int)
    requires 0 <= c < b.len(), gn_reg(t.nodes[c]), same_run(b, pos, c, n)
    ensures match_found(t, b, pos, n, (pos - c) % (b.len() as int) - 1)
{ reveal(match_found); assert(match_from(t, b, pos, n, (pos - c) % (b.len() as int) - 1, c)); }
#[verifier::opaque]
pub open spec fn ins_post(t0: TV, b: Seq<u8>, p: int, t: TV) -> bool {
    tv_inv(t, b) && t.nodes.len() == t0.nodes.len() && forall|k: int| 0 <= k < t.nodes.len() && k != p && gn_reg(#[trigger] t.nodes[k]) ==> gn_reg(t0.nodes[k])
}
pub open spec fn tv_spawn_root(t0: TV, s: int, p: int) -> TV { tv_put(tv_root(t0, s, Some(p as usize)), p, GN { sym: Some(s as usize), up: None, l: None, r: None }) }
pub open spec fn tv_spawn(t0: TV, c: int, s: int, p: int) -> TV {
    let t = tv_put(t0, c, gn_set(t0.nodes[c], s, Some(p as usize)));
    tv_put(t, p, GN { sym: t.nodes[p].sym, up: Some(c as usize), l: None, r: None })
}
pub proof fn lemma_ins_root(t0: TV, b: Seq<u8>, s: int, p: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), !gn_reg(t0.nodes[p]), 0 <= s < 256, t0.roots[s] is None, b[p] == s
    ensures ins_post(t0, b, p, tv_spawn_root(t0, s, p))
{
    reveal(ins_post);
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    let u = tv_spawn_root(t0, s, p);
    assert(tv_bare(t0, p));
    lemma_tv_link_root(t0, rk, s, p);
    lemma_tv_eq(u, tv_link_root(t0, s, p));
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_col(u, b, k) by { assert(tv_node_col(t0, b, k)); }
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_bare(u, k) by { assert(tv_bare(t0, k)); }
}
pub proof fn lemma_tv_eq(a: TV, b: TV)
    requires a.roots =~= b.roots, a.nodes =~= b.nodes
    ensures a == b
{}
pub proof fn lemma_ins_leaf(t0: TV, b: Seq<u8>, c: int, s: int, p: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), !gn_reg(t0.nodes[p]), 0 <= c < t0.nodes.len(), gn_reg(t0.nodes[c]), 0 <= s <= 1, gn_dn(t0.nodes[c], s) is None, b[c] == b[p]
    ensures ins_post(t0, b, p, tv_spawn(t0, c, s, p))
{
    reveal(ins_post);
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    let u = tv_spawn(t0, c, s, p);
    assert(tv_bare(t0, p));
    lemma_tv_leaf_rank(t0, rk, p);
    let r2 = rk_room(rk).update(p, 0);
    lemma_tv_link(t0, r2, c, s, p);
    lemma_tv_eq(u, tv_link(t0, c, s, p));
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_col(u, b, k) by { assert(tv_node_col(t0, b, k)); }
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_bare(u, k) by { assert(tv_bare(t0, k)); }
}
pub proof fn lemma_ins_change(t0: TV, b: Seq<u8>, c: int, p: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), !gn_reg(t0.nodes[p]), 0 <= c < t0.nodes.len(), gn_reg(t0.nodes[c]), b[c] == b[p]
    ensures ins_post(t0, b, p, tv_change(t0, c, p))
{
    reveal(ins_post);
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    let u = tv_change(t0, c, p);
    assert(tv_bare(t0, p));
    lemma_tv_changed(t0, rk, c, p);
    lemma_tv_change(t0, rk, c, p);
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_node_col(u, b, k) by {
        assert(tv_node_col(t0, b, k));
        assert(tv_node_col(t0, b, c));
        lemma_tv_node(t0, rk, k);
        lemma_tv_node(t0, rk, c);
    }
    assert forall|k: int| 0 <= k < u.nodes.len() implies #[trigger] tv_bare(u, k) by { assert(tv_bare(t0, k)); assert(tv_bare(t0, c)); }
}
pub proof fn lemma_ins_start(t0: TV, b: Seq<u8>, p: int)
    requires tv_inv(t0, b), 0 <= p < t0.nodes.len(), !gn_reg(t0.nodes[p])
    ensures tv_ok(t0), t0.nodes.len() == b.len(), t0.roots.len() == 256, gn_leaf(t0.nodes[p]), b.len() <= 0x1_0000,
        forall|s: int| 0 <= s < 256 ==> (#[trigger] t0.roots[s] matches Some(c) ==> c < t0.nodes.len() && gn_reg(t0.nodes[c as int]) && b[c as int] == s),
{
    let rk = choose|rk: Seq<int>| tv_rk(t0, rk);
    assert(tv_bare(t0, p));
    assert forall|s: int| 0 <= s < 256 implies (#[trigger] t0.roots[s] matches Some(c) ==> c < t0.nodes.len() && gn_reg(t0.nodes[c as int]) && b[c as int] == s) by {
        assert(tv_root_ok(t0, s));
        if let Some(c) = t0.roots[s] { assert(tv_node_col(t0, b, c as int)); }
    }
}
pub proof fn lemma_ins_down(t0: TV, rk: Seq<int>, b: Seq<u8>, c: int, s: int)
    requires tv_rk(t0, rk), tv_col(t0, b), t0.nodes.len() == b.len(), 0 <= c < t0.nodes.len(), 0 <= s <= 1
    ensures gn_dn(t0.nodes[c], s) matches Some(k) ==> k < t0.nodes.len() && gn_reg(t0.nodes[k as int]) && b[k as int] == b[c] && 0 <= rk[k as int] < rk[c]
{
    lemma_tv_node(t0, rk, c);
    if let Some(k) = gn_dn(t0.nodes[c], s) { assert(tv_node_col(t0, b, k as int)); }
}
