## the trees that index the dictionary
@module tools::node_pool
pub open spec fn gnode(n: Node) -> GN { GN { sym: n.symbol, up: n.up, l: n.down@[0], r: n.down@[1] } }
pub open spec fn gside(s: Side) -> int { match s { Side::Left => 0, Side::Right => 1 } }
impl Tree {
    pub closed spec fn tv(&self) -> TV { TV { roots: self.roots@, nodes: self.pool@.map_values(|n: Node| gnode(n)) } }
    pub closed spec fn at(&self) -> Option<usize> { self.curs }
    pub open spec fn on(&self) -> bool { self.at() matches Some(c) && c < self.tv().nodes.len() }
    pub open spec fn here(&self) -> GN { self.tv().nodes[self.at().unwrap() as int] }
}
proof fn lemma_tv_same(a: TV, b: TV)
    requires a.roots =~= b.roots, a.nodes =~= b.nodes
    ensures a == b
{}
@fn tools::node_pool::Tree::create
@ret r
@contract
    ensures r.tv().nodes == Seq::new(len as nat, |i: int| gn_empty()), r.tv().roots == Seq::new(symbols as nat, |i: int| None::<usize>), r.at() is None,
@loop 0
        invariant
            pool@.len() == i,
            forall|k: int| 0 <= k < i ==> gnode(#[trigger] pool@[k]) == gn_empty(),
@at loop0.after
        proof { assert(pool@.map_values(|n: Node| gnode(n)) =~= Seq::new(len as nat, |i: int| gn_empty())); }
@fn tools::node_pool::Tree::chk_cursor
@ret r
@contract
    ensures match r {
        Ok(c) => self.at() == Some(c) && c < self.tv().nodes.len(),
        Err(e) => !self.on(),
    },
@fn tools::node_pool::Tree::get_cursor
@ret r
@contract
    ensures r == self.at(),
@fn tools::node_pool::Tree::set_cursor
@ret r
@contract
    ensures
        curs < old(self).tv().nodes.len() ==> r is Ok && final(self).at() == Some(curs),
        r is Err ==> final(self).at() == old(self).at(),
        final(self).tv() == old(self).tv(),
@fn tools::node_pool::Tree::set_cursor_to_root
@ret r
@contract
    requires symbol < old(self).tv().roots.len(),
    ensures
        final(self).tv() == old(self).tv(),
        match old(self).tv().roots[symbol as int] {
            None => r == Err::<(), Error>(Error::NodeMissing) && final(self).at() == old(self).at(),
            Some(v) => r is Ok && final(self).at() == Some(v),
        },
@fn tools::node_pool::Tree::up
@ret r
@contract
    requires old(self).on(),
    ensures
        final(self).tv() == old(self).tv(),
        match old(self).here().up {
            None => r == Err::<usize, Error>(Error::NodeMissing) && final(self).at() == old(self).at(),
            Some(v) => r == Ok::<usize, Error>(v) && final(self).at() == Some(v),
        },
@fn tools::node_pool::Tree::down
@ret r
@contract
    requires old(self).on(),
    ensures
        final(self).tv() == old(self).tv(),
        match gn_dn(old(self).here(), gside(side)) {
            None => r == Err::<usize, Error>(Error::NodeMissing) && final(self).at() == old(self).at(),
            Some(v) => r == Ok::<usize, Error>(v) && final(self).at() == Some(v),
        },
@fn tools::node_pool::Tree::terminus
@ret r
@contract
    requires old(self).on(), tv_ok(old(self).tv()),
    ensures
        final(self).tv() == old(self).tv(),
        r matches Ok(k) && k < old(self).tv().nodes.len() && final(self).at() == Some(k)
            && gn_dn(old(self).tv().nodes[k as int], gside(side)) is None
            && (k == old(self).at().unwrap() || tv_below(old(self).tv(), k as int, gside(side), old(self).at().unwrap() as int)),
        /*FN*/ r matches Ok(k) ==> k == tv_end(old(self).tv(), old(self).at().unwrap() as int, gside(side)),
@at start
        let ghost rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
@loop 0
            invariant
                self.tv() == old(self).tv(), self.on(), self.at() == Some(term), tv_ok(self.tv()), old(self).on(), tv_rk(self.tv(), rk),
                term == old(self).at().unwrap() || tv_below(self.tv(), term as int, gside(side), old(self).at().unwrap() as int),
                /*FN*/ tv_end(self.tv(), term as int, gside(side)) == tv_end(self.tv(), old(self).at().unwrap() as int, gside(side)),
            ensures
                /*FN*/ term == tv_end(self.tv(), old(self).at().unwrap() as int, gside(side)),
                gn_dn(self.tv().nodes[term as int], gside(side)) is None, self.tv() == old(self).tv(), self.on(), self.at() == Some(term),
                term == old(self).at().unwrap() || tv_below(self.tv(), term as int, gside(side), old(self).at().unwrap() as int),
            decreases rk[term as int],
@at loop0.begin
            proof { lemma_tv_node(self.tv(), rk, term as int); lemma_tv_below(self.tv(), term as int, gside(side), old(self).at().unwrap() as int, curs as int); }

@fn tools::node_pool::Tree::get_down
@ret r
@contract
    requires self.on(),
    ensures r matches Ok(d) && d@[0] == self.here().l && d@[1] == self.here().r,
@fn tools::node_pool::Tree::get_parent_and_side
@ret r
@contract
    requires old(self).on(), tv_ok(old(self).tv()),
    ensures
        *final(self) == *old(self),
        match old(self).here().up {
            None => r is Err,
            Some(q) => r matches Ok((p, s)) && p == q && gside(s) == tv_side(old(self).tv(), q as int, old(self).at().unwrap() as int),
        },
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
        }
@fn tools::node_pool::Tree::get_symbol
@ret r
@contract
    requires old(self).on(), tv_ok(old(self).tv()),
    ensures
        *final(self) == *old(self),
        match old(self).here().sym {
            None => r is Err,
            Some(s) => r == Ok::<usize, Error>(s),
        },
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
        }
@fn tools::node_pool::Tree::is_root
@ret r
@contract
    requires self.on(),
    ensures r == Ok::<bool, Error>(self.here().up is None),
@fn tools::node_pool::Tree::is_leaf
@ret r
@contract
    requires self.on(),
    ensures r == Ok::<bool, Error>(gn_leaf(self.here())),
@fn tools::node_pool::Tree::is_free
@ret r
@contract
    requires curs < self.tv().nodes.len(),
    ensures r == Ok::<bool, Error>(!gn_reg(self.tv().nodes[curs as int])),
@fn tools::node_pool::Tree::spawn
@ret r
@contract
    requires old(self).on(), val < old(self).tv().nodes.len(), gn_dn(old(self).here(), gside(side)) is None, val != old(self).at().unwrap(),
    ensures
        /*C09*/ r is Ok,
        final(self).at() == old(self).at(),
        ({
            let c = old(self).at().unwrap();
            let t = tv_put(old(self).tv(), c as int, gn_set(old(self).here(), gside(side), Some(val)));
            final(self).tv() == tv_put(t, val as int, GN { sym: t.nodes[val as int].sym, up: Some(c), l: None, r: None })
        }),
@at end
        proof {
            let c = old(self).at().unwrap();
            let t = tv_put(old(self).tv(), c as int, gn_set(old(self).here(), gside(side), Some(val)));
            lemma_tv_same(self.tv(), tv_put(t, val as int, GN { sym: t.nodes[val as int].sym, up: Some(c), l: None, r: None }));
        }
@fn tools::node_pool::Tree::spawn_root
@ret r
@contract
    requires symbol < old(self).tv().roots.len(), curs < old(self).tv().nodes.len(), !gn_reg(old(self).tv().nodes[curs as int]),
    ensures
        /*C09*/ r is Ok,
        final(self).at() == old(self).at(),
        final(self).tv() == tv_put(tv_root(old(self).tv(), symbol as int, Some(curs)), curs as int, GN { sym: Some(symbol), up: None, l: None, r: None }),
@at before "return Ok(())"
            proof { lemma_tv_same(self.tv(), tv_put(tv_root(old(self).tv(), symbol as int, Some(curs)), curs as int, GN { sym: Some(symbol), up: None, l: None, r: None })); }
@fn tools::node_pool::Tree::drop
@ret r
@contract
    requires old(self).on(), tv_ok(old(self).tv()), gn_leaf(old(self).here()),
    ensures
        /*C09*/ r is Ok,
        final(self).tv() == tv_drop(old(self).tv(), old(self).at().unwrap() as int),
        final(self).at() == (if old(self).here().sym is Some { None } else if old(self).here().up is Some { old(self).here().up } else { old(self).at() }),
    decreases 0int,
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
        }
@at end
        proof { lemma_tv_same(self.tv(), tv_drop(old(self).tv(), old(self).at().unwrap() as int)); }
@fn tools::node_pool::Tree::drop_branch
@ret r
@contract
    requires old(self).on(), tv_ok(old(self).tv()),
        gn_dn(old(self).here(), gside(side)) matches Some(c) ==> gn_leaf(old(self).tv().nodes[c as int]),
    ensures
        /*C09*/ r is Ok,
        final(self).at() == old(self).at(),
        final(self).tv() == (match gn_dn(old(self).here(), gside(side)) { Some(c) => tv_drop(old(self).tv(), c as int), None => old(self).tv() }),
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
        }
@fn tools::node_pool::Tree::cut_upward
@ret r
@contract
    requires old(self).on(), tv_ok(old(self).tv()), old(self).here().up is Some,
    ensures
        /*C09*/ r is Ok,
        final(self).at() == old(self).at(),
        final(self).tv() == tv_cut(old(self).tv(), old(self).at().unwrap() as int),
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
        }
@at end
        proof { lemma_tv_same(self.tv(), tv_cut(old(self).tv(), old(self).at().unwrap() as int)); }
@fn tools::node_pool::Tree::cut_downward
@ret r
@contract
    requires old(self).on(), tv_ok(old(self).tv()),
    ensures
        /*C09*/ r is Ok,
        final(self).at() == old(self).at(),
        final(self).tv() == (match gn_dn(old(self).here(), gside(side)) { Some(c) => tv_cut(old(self).tv(), c as int), None => old(self).tv() }),
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
        }
@at end
        proof {
            if let Some(c) = gn_dn(old(self).here(), gside(side)) { lemma_tv_same(self.tv(), tv_cut(old(self).tv(), c as int)); }
            else { lemma_tv_same(self.tv(), old(self).tv()); }
        }
@fn tools::node_pool::Tree::move_node
@ret r
@contract
    requires
        old(self).on(), tv_ok(old(self).tv()), new_parent < old(self).tv().nodes.len(), new_parent != old(self).at().unwrap(),
        old(self).here().sym is None,
        gn_dn(old(self).tv().nodes[new_parent as int], gside(side)) matches Some(d) ==> force && d != old(self).at().unwrap()
            && gn_leaf(tv_freed(old(self).tv(), old(self).at().unwrap() as int).nodes[d as int]),
    ensures
        /*C09*/ r is Ok,
        final(self).at() == old(self).at(),
        ({
            let c = old(self).at().unwrap() as int;
            let t = tv_freed(old(self).tv(), c);
            let u = match gn_dn(old(self).tv().nodes[new_parent as int], gside(side)) { Some(d) => tv_drop(t, d as int), None => t };
            final(self).tv() == tv_link(u, new_parent as int, gside(side), c)
        }),
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
            lemma_tv_node(self.tv(), rk, new_parent as int);
            lemma_tv_unlinked(self.tv(), rk, self.at().unwrap() as int);
            lemma_tv_cut(self.tv(), rk, self.at().unwrap() as int);
        }
@at before "self.pool[new_parent]"
        let ghost u0 = self.tv();
@at before "return Ok(())"
        proof { lemma_tv_same(self.tv(), tv_link(u0, new_parent as int, gside(side), curs as int)); }
@fn tools::node_pool::Tree::move_node_to_root
@ret r
@contract
    requires
        old(self).on(), tv_ok(old(self).tv()), symbol < old(self).tv().roots.len(),
        old(self).here().sym is None,
        old(self).tv().roots[symbol as int] matches Some(d) ==> force && d != old(self).at().unwrap()
            && gn_leaf(tv_freed(old(self).tv(), old(self).at().unwrap() as int).nodes[d as int]),
    ensures
        /*C09*/ r is Ok,
        final(self).at() == old(self).at(),
        ({
            let c = old(self).at().unwrap() as int;
            let t = tv_freed(old(self).tv(), c);
            let u = match old(self).tv().roots[symbol as int] { Some(d) => tv_drop(t, d as int), None => t };
            final(self).tv() == tv_link_root(u, symbol as int, c)
        }),
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
            assert(tv_root_ok(self.tv(), symbol as int));
            lemma_tv_unlinked(self.tv(), rk, self.at().unwrap() as int);
            lemma_tv_cut(self.tv(), rk, self.at().unwrap() as int);
        }
@at before "self.roots[symbol]"
        let ghost u0 = self.tv();
@at before "return Ok(())"
        proof { lemma_tv_same(self.tv(), tv_link_root(u0, symbol as int, curs as int)); }
@fn tools::node_pool::Tree::change_value
@ret r
@contract
    requires
        old(self).on(), tv_ok(old(self).tv()), new_val < old(self).tv().nodes.len(), new_val != old(self).at().unwrap(),
        !gn_reg(old(self).tv().nodes[new_val as int]), gn_leaf(old(self).tv().nodes[new_val as int]),
    ensures
        /*C09*/ r is Ok,
        final(self).at() == Some(new_val),
        final(self).tv() == tv_change(old(self).tv(), old(self).at().unwrap() as int, new_val as int),
@at start
        proof {
            let rk = choose|rk: Seq<int>| tv_rk(self.tv(), rk);
            lemma_tv_node(self.tv(), rk, self.at().unwrap() as int);
            lemma_tv_node(self.tv(), rk, new_val as int);
        }
@at end
        proof { lemma_tv_same(self.tv(), tv_change(old(self).tv(), old_val as int, new_val as int)); }
@end
