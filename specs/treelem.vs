@mid
// ---- lemmas: nodes outside an interval do not matter ---------------------------------------------
pub open spec fn agree(n: Seq<NodeV>, o: Seq<NodeV>, lo: int, hi: int) -> bool {
    &&& 0 <= lo && hi <= n.len() && hi <= o.len()
    &&& forall|y: int| lo <= y < hi ==> #[trigger] n[y] == o[y]
}
proof fn lemma_pat_frame(n: Seq<NodeV>, o: Seq<NodeV>, i: usize, id: usize, kw: Option<usize>, sels: Seq<(usize, usize)>, hi: int)
    requires pat_at(n, i, id, kw, sels, hi), agree(n, o, i as int, hi), i < hi,
    ensures pat_at(o, i, id, kw, sels, hi),
{
    reveal(pat_at);
    assert(n[i as int] == o[i as int]);
    let c = kids(n, i);
    assert(kids(o, i) == c);
    assert forall|k: int| 0 <= k < sels.len() implies sel_at(o, #[trigger] c[k + 2], sels[k], i, i as int, hi) by {
        assert(sel_at(n, c[k + 2], sels[k], i, i as int, hi));
        assert(n[c[k + 2] as int] == o[c[k + 2] as int]);
    }
}
proof fn lemma_cmd_frame(n: Seq<NodeV>, o: Seq<NodeV>, i: usize, items: Seq<CI>, hi: int)
    requires cmd_at(n, i, items, hi), agree(n, o, i as int, hi), i < hi,
    ensures cmd_at(o, i, items, hi),
{
    reveal(cmd_at);
    assert(n[i as int] == o[i as int]);
    let c = kids(n, i);
    assert(kids(o, i) == c);
    assert forall|k: int| 0 <= k < items.len() implies ci_at(o, #[trigger] c[k], items[k], i, i as int, hi) by { assert(ci_at(n, c[k], items[k], i, i as int, hi)); }
}
proof fn lemma_part_frame(n: Seq<NodeV>, o: Seq<NodeV>, i: usize, p: Part, par: usize, hi: int)
    requires part_at(n, i, p, par, hi), agree(n, o, i as int, hi),
    ensures part_at(o, i, p, par, hi),
{
    assert(n[i as int] == o[i as int]);
    match p {
        Part::Pat { id, kw, sels } => lemma_pat_frame(n, o, i, id, kw, sels, hi),
        Part::Cmd(items) => lemma_cmd_frame(n, o, i, items, hi),
        _ => {}
    }
}
proof fn lemma_str_frame(n: Seq<NodeV>, o: Seq<NodeV>, i: usize, p: Seq<Part>, par: usize, hi: int)
    requires str_at(n, i, p, par, hi), agree(n, o, i as int, hi),
    ensures str_at(o, i, p, par, hi),
{
    reveal(str_at);
    assert(n[i as int] == o[i as int]);
    let c = kids(n, i);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] str_kid(o, i, c, p, k, hi) by {
        assert(str_kid(n, i, c, p, k, hi));
        if k + 1 < c.len() { assert(str_kid(n, i, c, p, k + 1, hi)); }
        lemma_part_frame(n, o, c[k], p[k], i, next_of(c, k, hi));
    }
}
proof fn lemma_named_frame(n: Seq<NodeV>, o: Seq<NodeV>, i: usize, nd: Named, par: usize, hi: int)
    requires named_at(n, i, nd, par, hi), agree(n, o, i as int, hi),
    ensures named_at(o, i, nd, par, hi),
{
    reveal(named_at);
    assert(n[i as int] == o[i as int]);
    let c = kids(n, i);
    if nd.parts is Some { lemma_str_frame(n, o, c[1], nd.parts->Some_0, i, hi); assert(c[1] < hi) by { reveal(str_at); } }
}
// a part is added to the last string / the last part of the last string changes
proof fn lemma_str_push(n: Seq<NodeV>, o: Seq<NodeV>, s: usize, ps: Seq<Part>, par: usize, p: Part)
    requires
        str_at(n, s, ps, par, n.len() as int), n.len() <= usize::MAX, n.len() < o.len(), agree(n, o, s + 1, n.len() as int),
        o[s as int] == (NodeV { children: Some(kids(n, s).push(n.len() as usize)), ..n[s as int] }),
        part_at(o, n.len() as usize, p, s, o.len() as int),
    ensures str_at(o, s, ps.push(p), par, o.len() as int), kids(o, s).last() == n.len(),
{
    reveal(str_at);
    let c = kids(n, s);
    let d = kids(o, s);
    let q = ps.push(p);
    assert(d == c.push(n.len() as usize));
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] str_kid(o, s, d, q, k, o.len() as int) by {
        if k < c.len() {
            assert(str_kid(n, s, c, ps, k, n.len() as int));
            if k + 1 < c.len() { assert(str_kid(n, s, c, ps, k + 1, n.len() as int)); }
            lemma_part_frame(n, o, c[k], ps[k], s, next_of(c, k, n.len() as int));
        }
    }
    if c.len() > 0 { assert(str_kid(n, s, c, ps, c.len() - 1, n.len() as int)); }
    lemma_sorted_push(c, n.len() as usize);
}
proof fn lemma_str_last(n: Seq<NodeV>, o: Seq<NodeV>, s: usize, ps: Seq<Part>, par: usize, p: Part)
    requires
        str_at(n, s, ps, par, n.len() as int), n.len() <= usize::MAX, n.len() <= o.len(), ps.len() > 0,
        agree(n, o, s as int, kids(n, s).last() as int),
        part_at(o, kids(n, s).last(), p, s, o.len() as int),
    ensures str_at(o, s, ps.update(ps.len() - 1, p), par, o.len() as int), kids(o, s) == kids(n, s), kids(n, s).len() == ps.len(), s < kids(n, s).last() < n.len(),
        part_at(n, kids(n, s).last(), ps.last(), s, n.len() as int),
{
    reveal(str_at);
    let c = kids(n, s);
    let q = ps.update(ps.len() - 1, p);
    let e = c.len() - 1;
    assert(str_kid(n, s, c, ps, e, n.len() as int));
    assert(n[s as int] == o[s as int]);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] str_kid(o, s, c, q, k, o.len() as int) by {
        if k < e {
            assert(str_kid(n, s, c, ps, k, n.len() as int));
            if k + 1 < e { lemma_sorted(c, k + 1, e); }
            lemma_part_frame(n, o, c[k], ps[k], s, next_of(c, k, n.len() as int));
        }
    }
}
// ---- the state of the parser ------------------------------------------------------------------------
pub open spec fn grp(n: Seq<NodeV>) -> usize { kids(n, 0)[1] }
pub open spec fn cn(n: Seq<NodeV>) -> usize { kids(n, grp(n)).last() }
pub open spec fn cs(n: Seq<NodeV>, m: M) -> usize { if m.group { kids(n, cn(n))[1] } else { 1 } }
pub open spec fn cpar(n: Seq<NodeV>, m: M) -> usize { if m.group { cn(n) } else { 0 } }
// the current string of the tree
proof fn lemma_cur_string(n: Seq<NodeV>, m: M)
    requires tree(n, m), instr(m),
    ensures str_at(n, cs(n, m), parts(m), cpar(n, m), n.len() as int), 0 < cs(n, m) < n.len(), cpar(n, m) < cs(n, m),
        n[cs(n, m) as int].typ == NodeType::String, n[cs(n, m) as int].parent == Some(cpar(n, m)), n[cs(n, m) as int].children is Some, kids(n, cs(n, m)).len() == parts(m).len(),
        parts(m).len() > 0 ==> cs(n, m) < kids(n, cs(n, m)).last() < n.len() && part_at(n, kids(n, cs(n, m)).last(), parts(m).last(), cs(n, m), n.len() as int),
        m.group ==> n[cn(n) as int].typ == NodeType::NamedString && n[cn(n) as int].parent == Some(grp(n)) && n[grp(n) as int].typ == NodeType::NamedGroup && kids(n, cn(n)).len() == 2
            && 0 < grp(n) < cn(n) < n.len() && kids(n, cn(n)).last() == cs(n, m) && n[cn(n) as int].children is Some && n[grp(n) as int].parent == Some(0usize),
{
    reveal(str_at); reveal(grp_at); reveal(named_at);
    if m.group {
        let c = kids(n, grp(n));
        let e = c.len() - 1;
        assert(grp_kid(n, grp(n), c, m.named, e, n.len() as int));
    }
    let s = cs(n, m);
    if parts(m).len() > 0 { let e = parts(m).len() - 1; assert(str_kid(n, s, kids(n, s), parts(m), e, n.len() as int)); }
}
// the current string changes
proof fn lemma_tree_str(n: Seq<NodeV>, o: Seq<NodeV>, m: M, ps: Seq<Part>)
    requires
        tree(n, m), instr(m), n.len() <= o.len(), agree(n, o, 0, cs(n, m) as int),
        str_at(o, cs(n, m), ps, cpar(n, m), o.len() as int),
    ensures tree(o, with_parts(m, ps)), cs(o, with_parts(m, ps)) == cs(n, m), parts(with_parts(m, ps)) == ps, instr(with_parts(m, ps)),
{
    lemma_cur_string(n, m);
    let s = cs(n, m);
    assert(n[0] == o[0]);
    if m.group {
        let g = grp(n);
        let w = with_parts(m, ps);
        reveal(grp_at); reveal(named_at);
        let c = kids(n, g);
        let e = c.len() - 1;
        assert(n[g as int] == o[g as int]);
        assert(n[cn(n) as int] == o[cn(n) as int]);
        assert(c[e] == cn(n));
        lemma_str_frame(n, o, 1, m.main, 0, g as int);
        assert(grp_kid(n, g, c, m.named, e, n.len() as int));
        assert forall|k: int| 0 <= k < c.len() implies #[trigger] grp_kid(o, g, c, w.named, k, o.len() as int) by {
            if k < e {
                assert(grp_kid(n, g, c, m.named, k, n.len() as int));
                if k + 1 < e { lemma_sorted(c, k + 1, e); }
                lemma_named_frame(n, o, c[k], m.named[k], g, next_of(c, k, n.len() as int));
            }
        }
        assert(grp_at(o, g, w.named, o.len() as int));
    }
}
// ---- operations on the nodes --------------------------------------------------------------------
pub open spec fn new_node(p: usize, t: NodeType) -> NodeV {
    NodeV { typ: t, parent: Some(p), children: if allow_c(t) { Some(Seq::empty()) } else { None }, toks: if allow_t(t) { Some(Seq::empty()) } else { None } }
}
pub open spec fn ins(n: Seq<NodeV>, p: usize, t: NodeType) -> Seq<NodeV> {
    n.update(p as int, NodeV { children: Some(n[p as int].children->Some_0.push(n.len() as usize)), ..n[p as int] }).push(new_node(p, t))
}
pub open spec fn addtok(n: Seq<NodeV>, i: usize, k: usize) -> Seq<NodeV> {
    n.update(i as int, NodeV { toks: Some(n[i as int].toks->Some_0.push(k)), ..n[i as int] })
}
pub open spec fn cont(n: Seq<NodeV>, i: usize) -> usize { if allow_c(n[i as int].typ) { i } else { n[i as int].parent->Some_0 } }
pub open spec fn ins_tok(n: Seq<NodeV>, c: usize, t: NodeType, k: usize) -> Seq<NodeV> { addtok(ins(n, c, t), n.len() as usize, k) }
pub open spec fn op_text(n: Seq<NodeV>, cur: usize, t: NodeType, k: usize) -> (Seq<NodeV>, usize) {
    if n[cur as int].typ == t { (addtok(n, cur, k), cur) } else { (ins_tok(n, cont(n, cur), t, k), n.len() as usize) }
}
// ---- the parser state that belongs to a state of the grammar ------------------------------------------
pub open spec fn base_state(m: M) -> ParserState { if m.group { ParserState::SubString } else { ParserState::String } }
pub open spec fn base_nest(m: M) -> Seq<ParserState> { if m.group { seq![ParserState::NamedGroup, ParserState::NamedString] } else { Seq::empty() } }
pub open spec fn state_ok(m: M, st: ParserState, ns: Seq<ParserState>) -> bool {
    match m.q {
        Q::Base => st == base_state(m) && ns =~= base_nest(m),
        Q::Pat => st == ParserState::Pattern && ns =~= base_nest(m).push(base_state(m)),
        Q::Kw => st == ParserState::Keyword && ns =~= base_nest(m).push(base_state(m)),
        Q::Cmd => st == ParserState::Command && ns =~= base_nest(m).push(base_state(m)),
        Q::CmdTick => st == ParserState::Command && ns =~= base_nest(m).push(base_state(m)),
        Q::LitTick => st == ParserState::Literal && ns =~= base_nest(m).push(base_state(m)),
        Q::Lit => st == ParserState::LiteralText && ns =~= base_nest(m).push(base_state(m)).push(ParserState::Literal),
        Q::CmdLit => st == ParserState::LiteralText && ns =~= base_nest(m).push(base_state(m)).push(ParserState::Command),
        Q::Group => st == ParserState::NamedGroup && ns =~= Seq::<ParserState>::empty(),
        Q::Name => st == ParserState::NamedString && ns =~= seq![ParserState::NamedGroup],
        Q::Body => st == ParserState::NamedString && ns =~= seq![ParserState::NamedGroup],
        _ => false,
    }
}
pub open spec fn cur_ok(n: Seq<NodeV>, cur: usize, m: M) -> bool {
    let s = cs(n, m);
    let l = kids(n, s).last();
    match m.q {
        Q::Base => if m.open || parts(m).len() > 0 && parts(m).last() is Num { cur == l } else { cur == s },
        Q::Pat | Q::Kw | Q::Cmd | Q::CmdTick | Q::Lit => cur == l,
        Q::LitTick => cur == s,
        Q::CmdLit => cur == kids(n, l).last(),
        Q::Group => cur == grp(n),
        Q::Name | Q::Body => cur == cn(n),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn inv(ts: Seq<Tk>, pos: int, n: Seq<NodeV>, cur: Option<usize>, st: ParserState, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    &&& 0 <= pos <= ts.len() <= isize::MAX && run(ts, pos) is Some && n.len() <= 4 * pos + 2 && cur is Some
    &&& ({
        let m = run(ts, pos)->Some_0;
        &&& tree(n, m) && wf_q(m) && cur_ok(n, cur->Some_0, m) && state_ok(m, st, ns) && nm == m.names && pt == m.pats
        &&& m.q is CmdTick || m.q is LitTick ==> pos < ts.len() && !is_g(ts[pos], "`"@)
    })
}
proof fn lemma_run(ts: Seq<Tk>, p: int)
    requires 0 <= p, run(ts, p) is Some,
    ensures run(ts, p + 1) == step(run(ts, p)->Some_0, ts[p], p as usize),
{ reveal_with_fuel(run, 2); }
proof fn lemma_dead(ts: Seq<Tk>, p: int)
    requires 0 <= p <= ts.len(), run(ts, p) is None,
    ensures !accepted(ts),
    decreases ts.len() - p,
{ if p < ts.len() { reveal_with_fuel(run, 2); lemma_dead(ts, p + 1); } }
// the last part of the current string changes
proof fn lemma_change(n: Seq<NodeV>, o: Seq<NodeV>, m: M, p: Part, q: Q)
    requires
        tree(n, m), instr(m), parts(m).len() > 0, n.len() <= o.len(), n.len() <= usize::MAX,
        agree(n, o, 0, kids(n, cs(n, m)).last() as int), part_at(o, kids(n, cs(n, m)).last(), p, cs(n, m), o.len() as int),
    ensures
        tree(o, set_last(m, p, q)), instr(set_last(m, p, q)), cs(o, set_last(m, p, q)) == cs(n, m), kids(o, cs(n, m)) == kids(n, cs(n, m)),
        parts(set_last(m, p, q)) == parts(m).update(parts(m).len() - 1, p),
{
    lemma_cur_string(n, m);
    let s = cs(n, m);
    lemma_str_last(n, o, s, parts(m), cpar(n, m), p);
    lemma_tree_str(n, o, m, parts(m).update(parts(m).len() - 1, p));
}
// a part is added to the current string
proof fn lemma_push(n: Seq<NodeV>, o: Seq<NodeV>, m: M, p: Part, q: Q, open: bool)
    requires
        tree(n, m), instr(m), n.len() < o.len(), n.len() <= usize::MAX,
        agree(n, o, 0, cs(n, m) as int), agree(n, o, cs(n, m) + 1, n.len() as int),
        o[cs(n, m) as int] == (NodeV { children: Some(kids(n, cs(n, m)).push(n.len() as usize)), ..n[cs(n, m) as int] }),
        part_at(o, n.len() as usize, p, cs(n, m), o.len() as int),
    ensures
        tree(o, push_part(m, p, q, open)), instr(push_part(m, p, q, open)), cs(o, push_part(m, p, q, open)) == cs(n, m), kids(o, cs(n, m)).last() == n.len(),
        parts(push_part(m, p, q, open)) == parts(m).push(p),
{
    lemma_cur_string(n, m);
    let s = cs(n, m);
    lemma_str_push(n, o, s, parts(m), cpar(n, m), p);
    lemma_tree_str(n, o, m, parts(m).push(p));
}
// a text token within a string
proof fn lemma_text(n: Seq<NodeV>, cur: usize, m: M, k: usize)
    requires tree(n, m), instr(m), n.len() < usize::MAX,
        m.open ==> parts(m).len() > 0 && parts(m).last() is Text && cur == kids(n, cs(n, m)).last(),
        !m.open ==> cont(n, cur) == cs(n, m) && n[cur as int].typ != NodeType::Text,
    ensures ({
        let o = op_text(n, cur, NodeType::Text, k);
        let w = add_text(m, k);
        tree(o.0, w) && wf_q(w) && cur_ok(o.0, o.1, w) && o.0.len() <= n.len() + 1 && w.q is Base && w.group == m.group && w.names == m.names && w.pats == m.pats
    }),
{
    lemma_cur_string(n, m);
    let o = op_text(n, cur, NodeType::Text, k).0;
    if m.open {
        lemma_change(n, o, m, Part::Text(parts(m).last()->Text_0.push(k)), Q::Base);
    } else {
        let e = Seq::<usize>::empty().push(k);
        assert(e =~= seq![k]);
        lemma_push(n, o, m, Part::Text(seq![k]), Q::Base, true);
    }
}
// a number sign within a named string
proof fn lemma_num(n: Seq<NodeV>, m: M, k: usize)
    requires tree(n, m), instr(m), n.len() < usize::MAX,
    ensures ({
        let o = ins_tok(n, cs(n, m), NodeType::NumberSign, k);
        let w = push_part(m, Part::Num(k), Q::Base, false);
        tree(o, w) && wf_q(w) && cur_ok(o, n.len() as usize, w) && o.len() == n.len() + 1
    }),
{
    lemma_cur_string(n, m);
    let o = ins_tok(n, cs(n, m), NodeType::NumberSign, k);
    assert(Seq::<usize>::empty().push(k) =~= seq![k]);
    lemma_push(n, o, m, Part::Num(k), Q::Base, false);
}
pub open spec fn opened(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, st: ParserState, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    let c = cont(n, cur);
    let l = Some(n.len() as usize);
    if k.t == TokenType::Identifier {
        if pt.contains(VpK::S(k.s)) { !accepted(ts) }
        else { inv(ts, p + 1, ins_tok(ins(n, c, NodeType::Pattern), n.len() as usize, NodeType::Identifier, p as usize), l, ParserState::Pattern, ns.push(st), nm, pt.insert(VpK::S(k.s))) }
    }
    else if is_g(k, "`"@) { inv(ts, p + 1, ins(n, c, NodeType::Text), l, ParserState::LiteralText, ns.push(st).push(ParserState::Literal), nm, pt) }
    else if is_g(k, "#"@) { inv(ts, p + 1, ins(n, c, NodeType::Command), l, ParserState::Command, ns.push(st), nm, pt) }
    else { !accepted(ts) }
}
// the token after {
proof fn lemma_open(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, st: ParserState, ns: Seq<ParserState>, m: M)
    requires 0 <= p < ts.len() <= isize::MAX, run(ts, p) == Some(m), m.q is Open, tree(n, m), instr(m), n.len() <= 4 * p + 2, n.len() < usize::MAX - 2,
        cont(n, cur) == cs(n, m), st == base_state(m), ns =~= base_nest(m), 4 * ts.len() + 8 <= usize::MAX,
    ensures opened(ts, p, n, cur, st, ns, m.names, m.pats),
{
    reveal(inv);
    let k = ts[p];
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    lemma_cur_string(n, m);
    let s = cs(n, m);
    if k.t == TokenType::Identifier {
        if !m.pats.contains(VpK::S(k.s)) {
            let a = ins(n, s, NodeType::Pattern);
            let o = ins_tok(a, n.len() as usize, NodeType::Identifier, p as usize);
            let pp = Part::Pat { id: p as usize, kw: None, sels: Seq::<(usize, usize)>::empty() };
            assert(Seq::<usize>::empty().push(p as usize) =~= seq![p as usize]);
            assert(pat_at(o, n.len() as usize, p as usize, None, Seq::<(usize, usize)>::empty(), o.len() as int)) by { reveal(pat_at); }
            lemma_push(n, o, m, pp, Q::Pat, false);
        }
    } else if is_g(k, "`"@) {
        let o = ins(n, s, NodeType::Text);
        lemma_push(n, o, m, Part::Text(Seq::empty()), Q::Lit, false);
    } else if is_g(k, "#"@) {
        let o = ins(n, s, NodeType::Command);
        assert(cmd_at(o, n.len() as usize, Seq::<CI>::empty(), o.len() as int)) by { reveal(cmd_at); reveal(sorted); }
        lemma_push(n, o, m, Part::Cmd(Seq::empty()), Q::Cmd, false);
    }
}
pub open spec fn base_next(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, st: ParserState, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    let c = cont(n, cur);
    let a = op_text(n, cur, NodeType::Text, p as usize);
    let b = op_text(n, cur, NodeType::Text, (p + 1) as usize);
    if k.t != TokenType::Grammar { inv(ts, p + 1, a.0, Some(a.1), st, ns, nm, pt) }
    else if k.s == "`"@ { if p + 1 == ts.len() { !accepted(ts) } else { inv(ts, p + 2, b.0, Some(b.1), st, ns, nm, pt) } }
    else if k.s == "{"@ { if p + 1 == ts.len() { !accepted(ts) } else { opened(ts, p + 1, n, cur, st, ns, nm, pt) } }
    else if k.s == "#"@ {
        if st == ParserState::String { inv(ts, p + 1, ins(n, 0, NodeType::NamedGroup), Some(n.len() as usize), ParserState::NamedGroup, ns, nm, pt) }
        else {
            let par = n[cur as int].parent->Some_0;
            let z = kids(n, par);
            &&& n[cur as int].parent is Some && par < n.len() && n[par as int].children is Some && (z.len() > 0 ==> z.last() < n.len())
            &&& if z.len() > 0 && n[z.last() as int].typ == NodeType::NumberSign { !accepted(ts) }
                else { inv(ts, p + 1, ins_tok(n, c, NodeType::NumberSign, p as usize), Some(n.len() as usize), st, ns, nm, pt) }
        }
    }
    else if k.s == "}"@ && st == ParserState::SubString {
        let d = n[c as int].parent->Some_0;
        &&& ns.len() == 2 && ns.drop_last().last() == ParserState::NamedGroup
        &&& c < n.len() && n[c as int].parent is Some && d < n.len() && n[d as int].children is Some && kids(n, d).len() == 2
        &&& inv(ts, p + 1, n, n[d as int].parent, ParserState::NamedGroup, ns.drop_last().drop_last(), nm, pt)
    }
    else { !accepted(ts) }
}
proof fn lemma_base(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, st: ParserState, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), st, ns, nm, pt), p < ts.len(), st == ParserState::String || st == ParserState::SubString, 4 * ts.len() + 8 <= usize::MAX,
    ensures base_next(ts, p, n, cur, st, ns, nm, pt), cur < n.len(),
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    let k = ts[p];
    let s = cs(n, m);
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    lemma_cur_string(n, m);
    assert(cont(n, cur) == s);
    if k.t != TokenType::Grammar {
        lemma_text(n, cur, m, p as usize);
    } else if k.s == "`"@ {
        if p + 1 < ts.len() { lemma_run(ts, p + 1); lemma_text(n, cur, at(m, Q::Tick), (p + 1) as usize); }
    } else if k.s == "{"@ {
        if p + 1 < ts.len() { lemma_open(ts, p + 1, n, cur, st, ns, at(m, Q::Open)); }
    } else if k.s == "#"@ {
        if !m.group {
            let o = ins(n, 0, NodeType::NamedGroup);
            let w = M { q: Q::Group, open: false, group: true, ..m };
            lemma_str_frame(n, o, 1, m.main, 0, n.len() as int);
            assert(grp_at(o, n.len() as usize, m.named, o.len() as int)) by { reveal(grp_at); reveal(sorted); }
            assert(tree(o, w));
        } else {
            if !(parts(m).len() > 0 && parts(m).last() is Num) { lemma_num(n, m, p as usize); }
        }
    } else if k.s == "}"@ && m.group {
    }
}
pub open spec fn popped(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: Option<usize>, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    ns.len() > 0 && inv(ts, p, n, cur, ns.last(), ns.drop_last(), nm, pt)
}
// an identifier leaf is added to the pattern or command that is being read
pub open spec fn id_next(ts: Seq<Tk>, p: int, o: Seq<NodeV>, l: usize, cur: usize, st: ParserState, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    cont(o, l) == cur && inv(ts, p + 1, o, Some(cur), st, ns, nm, pt)
}
pub open spec fn pat_next(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    if k.t == TokenType::Identifier { id_next(ts, p, ins_tok(n, cur, NodeType::Identifier, p as usize), n.len() as usize, cur, ParserState::Keyword, ns, nm, pt) }
    else if k.t == TokenType::WhiteSpace { inv(ts, p + 1, n, Some(cur), ParserState::Pattern, ns, nm, pt) }
    else if is_g(k, "}"@) { popped(ts, p + 1, n, n[cur as int].parent, ns, nm, pt) }
    else { !accepted(ts) }
}
proof fn lemma_pat(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), ParserState::Pattern, ns, nm, pt), p < ts.len(), 4 * ts.len() + 8 <= usize::MAX,
    ensures pat_next(ts, p, n, cur, ns, nm, pt), cur < n.len(), cont(n, cur) == cur,
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    let k = ts[p];
    let s = cs(n, m);
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    lemma_cur_string(n, m);
    assert(n[cur as int].typ == NodeType::Pattern) by { reveal(pat_at); }
    assert(ns.drop_last() =~= base_nest(m));
    if k.t == TokenType::Identifier {
        let o = ins_tok(n, cur, NodeType::Identifier, p as usize);
        let id = parts(m).last()->id;
        let e = Seq::<(usize, usize)>::empty();
        assert(Seq::<usize>::empty().push(p as usize) =~= seq![p as usize]);
        assert(pat_at(o, cur, id, Some(p as usize), e, o.len() as int)) by { reveal(pat_at); }
        lemma_change(n, o, m, Part::Pat { id, kw: Some(p as usize), sels: e }, Q::Kw);
    }
}
pub open spec fn kw_next(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    if k.t == TokenType::Identifier {
        let l = n.len() as usize;
        let n1 = ins(n, cur, NodeType::Selector);
        let n2 = ins_tok(n1, l, NodeType::Identifier, p as usize);
        let n3 = ins_tok(n2, l, NodeType::Identifier, (p + 2) as usize);
        &&& n1[l as int].typ == NodeType::Selector && cont(n2, n1.len() as usize) == l && cont(n1, l) == l && cont(n2, l) == l && cont(n3, n2.len() as usize) == l
        &&& n2[l as int].typ == NodeType::Selector && n3[l as int].parent == Some(cur)
        &&& if p + 1 < ts.len() && ts[p + 1].s == "#"@ && p + 2 < ts.len() && ts[p + 2].t == TokenType::Identifier { inv(ts, p + 3, n3, Some(cur), ParserState::Keyword, ns, nm, pt) }
            else { !accepted(ts) }
    }
    else if k.t == TokenType::WhiteSpace { inv(ts, p + 1, n, Some(cur), ParserState::Keyword, ns, nm, pt) }
    else if is_g(k, "}"@) { popped(ts, p + 1, n, n[cur as int].parent, ns, nm, pt) }
    else { !accepted(ts) }
}
proof fn lemma_sel_push(n: Seq<NodeV>, cur: usize, id: usize, kw: usize, sels: Seq<(usize, usize)>, a: usize, b: usize)
    requires pat_at(n, cur, id, Some(kw), sels, n.len() as int), cur < n.len(), n.len() < usize::MAX - 3,
    ensures ({
        let l = n.len() as usize;
        let n3 = ins_tok(ins_tok(ins(n, cur, NodeType::Selector), l, NodeType::Identifier, a), l, NodeType::Identifier, b);
        pat_at(n3, cur, id, Some(kw), sels.push((a, b)), n3.len() as int)
    }),
{
    reveal(pat_at);
    let l = n.len() as usize;
    let n1 = ins(n, cur, NodeType::Selector);
    let n2 = ins_tok(n1, l, NodeType::Identifier, a);
    let n3 = ins_tok(n2, l, NodeType::Identifier, b);
    let c = kids(n, cur);
    let d = kids(n3, cur);
    let t = sels.push((a, b));
    assert(d == c.push(l));
    assert(Seq::<usize>::empty().push(a) =~= seq![a]);
    assert(Seq::<usize>::empty().push(b) =~= seq![b]);
    assert(kids(n3, l) =~= seq![(l + 1) as usize, (l + 2) as usize]);
    assert(sel_at(n3, l, (a, b), cur, cur as int, n3.len() as int));
    assert forall|k: int| 0 <= k < t.len() implies sel_at(n3, #[trigger] d[k + 2], t[k], cur, cur as int, n3.len() as int) by {
        if k < sels.len() { assert(sel_at(n, c[k + 2], sels[k], cur, cur as int, n.len() as int)); }
    }
}
proof fn lemma_kw(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), ParserState::Keyword, ns, nm, pt), p < ts.len(), 4 * ts.len() + 8 <= usize::MAX,
    ensures kw_next(ts, p, n, cur, ns, nm, pt), cur < n.len(), cont(n, cur) == cur,
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    let k = ts[p];
    let s = cs(n, m);
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    lemma_cur_string(n, m);
    assert(n[cur as int].typ == NodeType::Pattern) by { reveal(pat_at); }
    assert(ns.drop_last() =~= base_nest(m));
    if k.t == TokenType::Identifier {
        if p + 1 < ts.len() {
            lemma_run(ts, p + 1);
            if run(ts, p + 2) is None { lemma_dead(ts, p + 2); }
            else if p + 2 < ts.len() {
                lemma_run(ts, p + 2);
                if run(ts, p + 3) is None { lemma_dead(ts, p + 3); }
                else {
                    let l = n.len() as usize;
                    let n3 = ins_tok(ins_tok(ins(n, cur, NodeType::Selector), l, NodeType::Identifier, p as usize), l, NodeType::Identifier, (p + 2) as usize);
                    let pp = parts(m).last();
                    lemma_sel_push(n, cur, pp->id, pp->kw->Some_0, pp->sels, p as usize, (p + 2) as usize);
                    lemma_change(n, n3, m, Part::Pat { id: pp->id, kw: pp->kw, sels: pp->sels.push((p as usize, (p + 2) as usize)) }, Q::Kw);
                }
            }
        }
    }
}
pub open spec fn lit_next(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    if is_g(k, "`"@) {
        if p + 1 == ts.len() { !accepted(ts) }
        else if is_g(ts[p + 1], "`"@) { inv(ts, p + 2, addtok(n, cur, (p + 1) as usize), Some(cur), ParserState::LiteralText, ns, nm, pt) }
        else { popped(ts, p + 1, n, n[cur as int].parent, ns, nm, pt) }
    }
    else { inv(ts, p + 1, addtok(n, cur, p as usize), Some(cur), ParserState::LiteralText, ns, nm, pt) }
}
proof fn lemma_lit_push(n: Seq<NodeV>, cur: usize, m: M, k: usize)
    requires tree(n, m), wf_q(m), cur_ok(n, cur, m), m.q is Lit || m.q is CmdLit, n.len() <= usize::MAX,
    ensures ({
        let o = addtok(n, cur, k);
        let w = if m.q is Lit { set_last(m, Part::Text(parts(m).last()->Text_0.push(k)), Q::Lit) } else { add_lit(m, k) };
        tree(o, w) && wf_q(w) && cur_ok(o, cur, w) && w.q == m.q && w.group == m.group && w.names == m.names && w.pats == m.pats
    }), cur < n.len(), n[cur as int].typ == NodeType::Text, n[cur as int].parent == Some(if m.q is Lit { cs(n, m) } else { kids(n, cs(n, m)).last() }),
{
    lemma_cur_string(n, m);
    let o = addtok(n, cur, k);
    let s = cs(n, m);
    let l = kids(n, s).last();
    if m.q is Lit {
        lemma_change(n, o, m, Part::Text(parts(m).last()->Text_0.push(k)), Q::Lit);
    } else {
        let items = parts(m).last()->Cmd_0;
        let e = items.len() - 1;
        let its = items.update(e, CI::Lit(items.last()->Lit_0.push(k)));
        let c = kids(n, l);
        reveal(cmd_at);
        assert(ci_at(n, c[e], items[e], l, l as int, n.len() as int));
        assert(n[l as int] == o[l as int]);
        assert(kids(o, l) == c);
        assert(cmd_at(o, l, its, o.len() as int)) by {
            assert forall|j: int| 0 <= j < its.len() implies ci_at(o, #[trigger] c[j], its[j], l, l as int, o.len() as int) by {
                assert(ci_at(n, c[j], items[j], l, l as int, n.len() as int));
                if j < e { lemma_sorted(c, j, e); }
            }
        }
        lemma_change(n, o, m, Part::Cmd(its), Q::CmdLit);
        assert(its.last() is Lit);
    }
}
proof fn lemma_lit(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), ParserState::LiteralText, ns, nm, pt), p < ts.len(), 4 * ts.len() + 8 <= usize::MAX,
    ensures lit_next(ts, p, n, cur, ns, nm, pt), cur < n.len(), n[cur as int].typ == NodeType::Text,
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    let k = ts[p];
    lemma_run(ts, p);
    lemma_lit_push(n, cur, m, p as usize);
    lemma_cur_string(n, m);
    assert(ns.drop_last() =~= base_nest(m).push(base_state(m)));
    if is_g(k, "`"@) {
        if p + 1 < ts.len() && is_g(ts[p + 1], "`"@) {
            lemma_run(ts, p + 1);
            lemma_lit_push(n, cur, m, (p + 1) as usize);
        }
    }
}
proof fn lemma_literal(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), ParserState::Literal, ns, nm, pt), p < ts.len(), 4 * ts.len() + 8 <= usize::MAX,
    ensures if is_g(ts[p], "}"@) { popped(ts, p + 1, n, Some(cur), ns, nm, pt) } else { !accepted(ts) }, cur < n.len(),
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    lemma_cur_string(n, m);
    assert(ns.drop_last() =~= base_nest(m));
}
pub open spec fn cmd_next(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    let c = ParserState::Command;
    if k.t == TokenType::Identifier { id_next(ts, p, ins_tok(n, cur, NodeType::Identifier, p as usize), n.len() as usize, cur, c, ns, nm, pt) }
    else if k.t == TokenType::WhiteSpace { inv(ts, p + 1, n, Some(cur), c, ns, nm, pt) }
    else if is_g(k, "}"@) { if kids(n, cur).len() == 0 { !accepted(ts) } else { popped(ts, p + 1, n, n[cur as int].parent, ns, nm, pt) } }
    else if is_g(k, "`"@) { inv(ts, p + 1, ins(n, cur, NodeType::Text), Some(n.len() as usize), ParserState::LiteralText, ns.push(c), nm, pt) }
    else if is_g(k, "#"@) {
        if kids(n, cur).len() != 1 { !accepted(ts) }
        else { id_next(ts, p, ins_tok(n, cur, NodeType::NumberSign, p as usize), n.len() as usize, cur, c, ns, nm, pt) }
    }
    else { !accepted(ts) }
}
proof fn lemma_item_push(n: Seq<NodeV>, o: Seq<NodeV>, cur: usize, items: Seq<CI>, c: CI)
    requires cmd_at(n, cur, items, n.len() as int), cur < n.len(), n.len() < usize::MAX, o.len() == n.len() + 1, agree(n, o, cur + 1, n.len() as int),
        o[cur as int] == (NodeV { children: Some(kids(n, cur).push(n.len() as usize)), ..n[cur as int] }),
        ci_at(o, n.len() as usize, c, cur, cur as int, o.len() as int),
    ensures cmd_at(o, cur, items.push(c), o.len() as int),
{
    reveal(cmd_at);
    let x = kids(n, cur);
    let y = kids(o, cur);
    let its = items.push(c);
    assert(y == x.push(n.len() as usize));
    if x.len() > 0 { let e = x.len() - 1; assert(ci_at(n, x[e], items[e], cur, cur as int, n.len() as int)); }
    lemma_sorted_push(x, n.len() as usize);
    assert forall|k: int| 0 <= k < its.len() implies ci_at(o, #[trigger] y[k], its[k], cur, cur as int, o.len() as int) by {
        if k < items.len() { assert(ci_at(n, x[k], items[k], cur, cur as int, n.len() as int)); }
    }
}
proof fn lemma_item(n: Seq<NodeV>, o: Seq<NodeV>, m: M, c: CI, q: Q)
    requires tree(n, m), instr(m), parts(m).len() > 0, parts(m).last() is Cmd, n.len() < usize::MAX, o.len() == n.len() + 1,
        q is Cmd || q is CmdLit, q is CmdLit <==> c is Lit,
        ({
            let cur = kids(n, cs(n, m)).last();
            &&& agree(n, o, 0, cur as int) && agree(n, o, cur + 1, n.len() as int)
            &&& o[cur as int] == (NodeV { children: Some(kids(n, cur).push(n.len() as usize)), ..n[cur as int] })
            &&& ci_at(o, n.len() as usize, c, cur, cur as int, o.len() as int)
        }),
    ensures ({
        let w = add_item(m, c, q);
        let cur = kids(n, cs(n, m)).last();
        tree(o, w) && wf_q(w) && cur_ok(o, if q is Cmd { cur } else { n.len() as usize }, w) && w.names == m.names && w.pats == m.pats && w.group == m.group
    }),
{
    lemma_cur_string(n, m);
    let cur = kids(n, cs(n, m)).last();
    let items = parts(m).last()->Cmd_0;
    lemma_item_push(n, o, cur, items, c);
    lemma_change(n, o, m, Part::Cmd(items.push(c)), q);
    assert(items.push(c).last() == c);
}
proof fn lemma_cmd(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), ParserState::Command, ns, nm, pt), p < ts.len(), 4 * ts.len() + 8 <= usize::MAX,
    ensures cmd_next(ts, p, n, cur, ns, nm, pt), cur < n.len(), cont(n, cur) == cur, n[cur as int].children is Some,
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    let k = ts[p];
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    lemma_cur_string(n, m);
    assert(n[cur as int].typ == NodeType::Command && n[cur as int].children is Some && kids(n, cur).len() == parts(m).last()->Cmd_0.len()) by { reveal(cmd_at); }
    assert(ns.drop_last() =~= base_nest(m));
    let e = Seq::<usize>::empty().push(p as usize);
    assert(e =~= seq![p as usize]);
    if k.t == TokenType::Identifier {
        lemma_item(n, ins_tok(n, cur, NodeType::Identifier, p as usize), m, CI::Id(p as usize), Q::Cmd);
    } else if k.t == TokenType::WhiteSpace {
    } else if is_g(k, "`"@) {
        lemma_item(n, ins(n, cur, NodeType::Text), m, CI::Lit(Seq::empty()), Q::CmdLit);
    } else if is_g(k, "#"@) {
        if kids(n, cur).len() == 1 { lemma_item(n, ins_tok(n, cur, NodeType::NumberSign, p as usize), m, CI::Sign(p as usize), Q::Cmd); }
    }
}
// the group of named strings
proof fn lemma_group_name(n: Seq<NodeV>, m: M)
    requires tree(n, m), m.group, m.named.len() > 0,
    ensures named_at(n, cn(n), m.named.last(), grp(n), n.len() as int), 1 < grp(n) < cn(n) < n.len(), kids(n, grp(n)).len() == m.named.len(),
        n[cn(n) as int].typ == NodeType::NamedString, n[cn(n) as int].children is Some, n[cn(n) as int].parent == Some(grp(n)),
        kids(n, cn(n)).len() == (if m.named.last().id is Some { 1int } else { 0 }) + (if m.named.last().parts is Some { 1int } else { 0 }),
        m.named.last().id is Some && m.named.last().parts is None ==> leaf(n, kids(n, cn(n))[0], NodeType::Identifier, cn(n), seq![m.named.last().id->Some_0], cn(n) as int, n.len() as int),
{
    reveal(grp_at); reveal(named_at);
    let c = kids(n, grp(n));
    let e = c.len() - 1;
    assert(grp_kid(n, grp(n), c, m.named, e, n.len() as int));
}
proof fn lemma_tree_name(n: Seq<NodeV>, o: Seq<NodeV>, m: M, nd: Named)
    requires tree(n, m), m.group, m.named.len() > 0, n.len() <= o.len(), agree(n, o, 0, cn(n) as int), named_at(o, cn(n), nd, grp(n), o.len() as int),
    ensures tree_at(o, m.main, true, m.named.update(m.named.len() - 1, nd)), grp(o) == grp(n), cn(o) == cn(n),
{
    lemma_group_name(n, m);
    let g = grp(n);
    reveal(grp_at);
    let c = kids(n, g);
    let e = c.len() - 1;
    let w = m.named.update(e, nd);
    assert(n[0] == o[0]);
    assert(n[g as int] == o[g as int]);
    lemma_str_frame(n, o, 1, m.main, 0, g as int);
    assert(grp_kid(n, g, c, m.named, e, n.len() as int));
    assert(g < c[e] < o.len());
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] grp_kid(o, g, c, w, k, o.len() as int) by {
        if k < e {
            assert(grp_kid(n, g, c, m.named, k, n.len() as int));
            if k + 1 < e { lemma_sorted(c, k + 1, e); }
            lemma_named_frame(n, o, c[k], m.named[k], g, next_of(c, k, n.len() as int));
        }
    }
    assert(grp_at(o, g, w, o.len() as int));
}
pub open spec fn group_next(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    if is_g(k, "{"@) { inv(ts, p + 1, ins(n, cur, NodeType::NamedString), Some(n.len() as usize), ParserState::NamedString, ns.push(ParserState::NamedGroup), nm, pt) }
    else if k.t == TokenType::WhiteSpace { inv(ts, p + 1, n, Some(cur), ParserState::NamedGroup, ns, nm, pt) }
    else { !accepted(ts) }
}
proof fn lemma_group(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), ParserState::NamedGroup, ns, nm, pt), p < ts.len(), 4 * ts.len() + 8 <= usize::MAX,
    ensures group_next(ts, p, n, cur, ns, nm, pt), cur < n.len(), cont(n, cur) == cur,
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    let k = ts[p];
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    reveal(grp_at);
    let g = grp(n);
    assert(cur == g);
    if is_g(k, "{"@) {
        let o = ins(n, g, NodeType::NamedString);
        let c = kids(n, g);
        let d = kids(o, g);
        let w = m.named.push(Named { id: None, parts: None });
        let l = n.len() as usize;
        assert(d == c.push(l));
        assert(named_at(o, l, Named { id: None, parts: None }, g, o.len() as int)) by { reveal(named_at); }
        if c.len() > 0 { let e = c.len() - 1; assert(grp_kid(n, g, c, m.named, e, n.len() as int)); }
        lemma_sorted_push(c, l);
        lemma_str_frame(n, o, 1, m.main, 0, g as int);
        assert forall|j: int| 0 <= j < d.len() implies #[trigger] grp_kid(o, g, d, w, j, o.len() as int) by {
            if j < c.len() {
                assert(grp_kid(n, g, c, m.named, j, n.len() as int));
                if j + 1 < c.len() { assert(grp_kid(n, g, c, m.named, j + 1, n.len() as int)); }
                lemma_named_frame(n, o, c[j], m.named[j], g, next_of(c, j, n.len() as int));
            }
        }
        assert(grp_at(o, g, w, o.len() as int));
        assert(ns.push(ParserState::NamedGroup) =~= seq![ParserState::NamedGroup]);
    }
}
pub open spec fn body_inv(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, t: NodeType, k: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let l = n.len() as usize;
    let n1 = ins(n, cur, NodeType::String);
    cont(n1, l) == l && inv(ts, p, ins_tok(n1, l, t, k), Some(n1.len() as usize), ParserState::SubString, ns.push(ParserState::NamedString), nm, pt)
}
pub open spec fn name_next(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>) -> bool {
    let k = ts[p];
    let one = kids(n, cur).len() == 1;
    let l = n.len() as usize;
    if !one {
        if k.t == TokenType::Identifier && !nm.contains(VpK::S(k.s)) {
            let o = ins_tok(n, cur, NodeType::Identifier, p as usize);
            &&& cont(o, l) == cur
            &&& if p + 1 < ts.len() && ts[p + 1].t == TokenType::WhiteSpace { inv(ts, p + 2, o, Some(cur), ParserState::NamedString, ns, nm.insert(VpK::S(k.s)), pt) } else { !accepted(ts) }
        } else { !accepted(ts) }
    }
    else if k.t == TokenType::Identifier || k.t == TokenType::Syntax { body_inv(ts, p + 1, n, cur, NodeType::Text, p as usize, ns, nm, pt) }
    else if k.t == TokenType::WhiteSpace { inv(ts, p + 1, n, Some(cur), ParserState::NamedString, ns, nm, pt) }
    else if k.s == "#"@ { body_inv(ts, p + 1, n, cur, NodeType::NumberSign, p as usize, ns, nm, pt) }
    else if k.s == "{"@ { if p + 1 == ts.len() { !accepted(ts) } else { opened(ts, p + 1, ins(n, cur, NodeType::String), l, ParserState::SubString, ns.push(ParserState::NamedString), nm, pt) } }
    else if k.s == "`"@ { if p + 1 == ts.len() { !accepted(ts) } else { body_inv(ts, p + 2, n, cur, NodeType::Text, (p + 1) as usize, ns, nm, pt) } }
    else { !accepted(ts) }
}
// the string of a named string is begun
proof fn lemma_body(n: Seq<NodeV>, m: M) -> (e: M)
    requires tree(n, m), m.q is Body, wf_q(m), n.len() < usize::MAX - 2,
    ensures e == (M { open: false, ..with_parts(m, Seq::empty()) }), ({
        let n1 = ins(n, cn(n), NodeType::String);
        tree(n1, e) && instr(e) && parts(e) == Seq::<Part>::empty() && cs(n1, e) == n.len() && cont(n1, n.len() as usize) == n.len() && cont(n, cn(n)) == cn(n)
    }),
{
    let e = M { open: false, ..with_parts(m, Seq::empty()) };
    let c = cn(n);
    let n1 = ins(n, c, NodeType::String);
    lemma_group_name(n, m);
    let nd = Named { id: m.named.last().id, parts: Some(Seq::<Part>::empty()) };
    assert(str_at(n1, n.len() as usize, Seq::<Part>::empty(), c, n1.len() as int)) by { reveal(str_at); reveal(sorted); }
    assert(named_at(n1, c, nd, grp(n), n1.len() as int)) by { reveal(named_at); }
    lemma_tree_name(n, n1, m, nd);
    e
}
proof fn lemma_name(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: usize, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, Some(cur), ParserState::NamedString, ns, nm, pt), p < ts.len(), 4 * ts.len() + 8 <= usize::MAX,
    ensures name_next(ts, p, n, cur, ns, nm, pt), cur < n.len(), cont(n, cur) == cur, n[cur as int].children is Some, kids(n, cur).len() <= 1,
{
    reveal(inv);
    let m = run(ts, p)->Some_0;
    let k = ts[p];
    lemma_run(ts, p);
    if run(ts, p + 1) is None { lemma_dead(ts, p + 1); }
    lemma_group_name(n, m);
    assert(ns.push(ParserState::NamedString) =~= seq![ParserState::NamedGroup, ParserState::NamedString]);
    if m.q is Name {
        if k.t == TokenType::Identifier && !m.names.contains(VpK::S(k.s)) {
            let o = ins_tok(n, cur, NodeType::Identifier, p as usize);
            let nd = Named { id: Some(p as usize), parts: None };
            assert(Seq::<usize>::empty().push(p as usize) =~= seq![p as usize]);
            assert(named_at(o, cur, nd, grp(n), o.len() as int)) by { reveal(named_at); }
            lemma_tree_name(n, o, m, nd);
            if p + 1 < ts.len() {
                lemma_run(ts, p + 1);
                if run(ts, p + 2) is None { lemma_dead(ts, p + 2); }
            }
        }
    } else {
        let e = lemma_body(n, m);
        let n1 = ins(n, cur, NodeType::String);
        let l = n.len() as usize;
        if k.t == TokenType::Identifier || k.t == TokenType::Syntax { lemma_text(n1, l, e, p as usize); }
        else if k.t == TokenType::WhiteSpace { }
        else if k.s == "#"@ { lemma_num(n1, e, p as usize); }
        else if k.s == "{"@ { if p + 1 < ts.len() { lemma_open(ts, p + 1, n1, l, ParserState::SubString, ns.push(ParserState::NamedString), at(e, Q::Open)); } }
        else if k.s == "`"@ { if p + 1 < ts.len() { lemma_run(ts, p + 1); lemma_text(n1, l, at(e, Q::Tick), (p + 1) as usize); } }
    }
}
// at the end of the tokens
proof fn lemma_end(ts: Seq<Tk>, n: Seq<NodeV>, cur: Option<usize>, st: ParserState, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, ts.len() as int, n, cur, st, ns, nm, pt),
    ensures ns.len() == 0 <==> accepted(ts), run(ts, ts.len() as int) is Some, tree(n, run(ts, ts.len() as int)->Some_0),
{ reveal(inv); }
proof fn lemma_init(ts: Seq<Tk>, n: Seq<NodeV>)
    requires n =~= ins(seq![NodeV { typ: NodeType::Root, parent: None, children: Some(Seq::empty()), toks: None }], 0, NodeType::String), ts.len() <= isize::MAX,
    ensures inv(ts, 0, n, Some(1), ParserState::String, Seq::empty(), Set::empty(), Set::empty()),
{
    reveal(inv); reveal(run); reveal(str_at); reveal(sorted);
}
proof fn lemma_bound(ts: Seq<Tk>, p: int, n: Seq<NodeV>, cur: Option<usize>, st: ParserState, ns: Seq<ParserState>, nm: Set<VpK>, pt: Set<VpK>)
    requires inv(ts, p, n, cur, st, ns, nm, pt),
    ensures n.len() <= 4 * p + 2, cur is Some, p <= ts.len(),
{ reveal(inv); }
