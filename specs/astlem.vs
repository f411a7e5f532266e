@mid
// ---- every part that the grammar reads refers to tokens that were read ------------------------------
pub open spec fn lim_toks(t: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < n }
pub open spec fn lim_ci(c: CI, n: int) -> bool {
    match c { CI::Id(t) => t < n, CI::Sign(t) => t < n, CI::Lit(ts) => lim_toks(ts, n) }
}
pub open spec fn lim(p: Part, n: int) -> bool {
    match p {
        Part::Text(ts) => lim_toks(ts, n),
        Part::Num(t) => t < n,
        Part::Pat { id, kw, sels } => id < n && (kw is Some ==> kw->Some_0 < n) && forall|i: int| 0 <= i < sels.len() ==> (#[trigger] sels[i]).0 < n && sels[i].1 < n,
        Part::Cmd(items) => forall|i: int| 0 <= i < items.len() ==> lim_ci(#[trigger] items[i], n),
    }
}
#[verifier::opaque]
pub open spec fn lim_parts(ps: Seq<Part>, n: int) -> bool { forall|i: int| 0 <= i < ps.len() ==> lim(#[trigger] ps[i], n) }
#[verifier::opaque]
pub open spec fn no_num(ps: Seq<Part>) -> bool { forall|i: int| 0 <= i < ps.len() ==> !((#[trigger] ps[i]) is Num) }
pub open spec fn lim_named(nd: Named, n: int) -> bool {
    (nd.id is Some ==> nd.id->Some_0 < n) && (nd.parts is Some ==> nd.id is Some && lim_parts(nd.parts->Some_0, n))
}
pub open spec fn complete(nd: Named) -> bool { nd.id is Some && nd.parts is Some }
pub open spec fn mlim(m: M, n: int) -> bool {
    &&& lim_parts(m.main, n) && no_num(m.main)
    &&& forall|k: int| 0 <= k < m.named.len() ==> lim_named(#[trigger] m.named[k], n)
    &&& forall|k: int| 0 <= k < m.named.len() && (k < m.named.len() - 1 || m.q is Group) ==> complete(#[trigger] m.named[k])
    &&& m.q matches Q::Sel1(a) ==> a < n
    &&& m.q matches Q::Sel2(a) ==> a < n
    &&& !m.group ==> m.named.len() == 0
}
proof fn lemma_lim_more(p: Part, n: int)
    requires lim(p, n),
    ensures lim(p, n + 1),
{}
proof fn lemma_parts_more(ps: Seq<Part>, n: int)
    requires lim_parts(ps, n),
    ensures lim_parts(ps, n + 1),
{ reveal(lim_parts); assert forall|i: int| 0 <= i < ps.len() implies lim(#[trigger] ps[i], n + 1) by { lemma_lim_more(ps[i], n); } }
proof fn lemma_parts_push(ps: Seq<Part>, p: Part, n: int)
    requires lim_parts(ps, n), lim(p, n),
    ensures lim_parts(ps.push(p), n), no_num(ps) && !(p is Num) ==> no_num(ps.push(p)),
{ reveal(lim_parts); reveal(no_num); }
proof fn lemma_parts_last(ps: Seq<Part>, p: Part, n: int)
    requires lim_parts(ps, n), lim(p, n), ps.len() > 0,
    ensures lim_parts(ps.update(ps.len() - 1, p), n), no_num(ps) && !(p is Num) ==> no_num(ps.update(ps.len() - 1, p)), lim(ps.last(), n),
{ reveal(lim_parts); reveal(no_num); assert(lim(ps[ps.len() - 1], n)); }
proof fn lemma_with(m: M, ps: Seq<Part>, q: Q, open: bool, n: int)
    requires mlim(m, n), instr(m), lim_parts(ps, n), !m.group ==> no_num(ps), !(q is Group), !(m.q is Group) || !m.group, q matches Q::Sel1(a) ==> a < n, q matches Q::Sel2(a) ==> a < n,
    ensures mlim(M { q, open, ..with_parts(m, ps) }, n),
{}
proof fn lemma_mlim_more(m: M, n: int)
    requires mlim(m, n),
    ensures mlim(m, n + 1),
{
    lemma_parts_more(m.main, n);
    assert forall|k: int| 0 <= k < m.named.len() implies lim_named(#[trigger] m.named[k], n + 1) by { if m.named[k].parts is Some { lemma_parts_more(m.named[k].parts->Some_0, n); } }
}
proof fn lemma_mpush(m: M, p: Part, q: Q, open: bool, n: int)
    requires mlim(m, n), instr(m), lim(p, n), !m.group ==> !(p is Num), !(q is Group), !(m.q is Group), !(q is Sel1), !(q is Sel2),
    ensures mlim(push_part(m, p, q, open), n), instr(push_part(m, p, q, open)), parts(push_part(m, p, q, open)) == parts(m).push(p),
{
    if m.group { let e = m.named.len() - 1; assert(lim_named(m.named[e], n)); }
    lemma_parts_push(parts(m), p, n);
    lemma_with(m, parts(m).push(p), q, open, n);
}
proof fn lemma_mset(m: M, p: Part, q: Q, n: int)
    requires mlim(m, n), instr(m), parts(m).len() > 0, lim(parts(m).last(), n) ==> lim(p, n), !(p is Num), !(q is Group), !(m.q is Group), !(q is Sel1), !(q is Sel2),
    ensures mlim(set_last(m, p, q), n), instr(set_last(m, p, q)), parts(set_last(m, p, q)) == parts(m).update(parts(m).len() - 1, p),
{
    if m.group { let e = m.named.len() - 1; assert(lim_named(m.named[e], n)); }
    assert(lim(parts(m).last(), n)) by { reveal(lim_parts); }
    lemma_parts_last(parts(m), p, n);
    lemma_with(m, parts(m).update(parts(m).len() - 1, p), q, m.open, n);
}
proof fn lemma_mtext(m: M, i: usize, n: int)
    requires mlim(m, n), instr(m), i < n, m.open ==> parts(m).len() > 0 && parts(m).last() is Text, !(m.q is Group),
    ensures mlim(add_text(m, i), n), wf_q(add_text(m, i)), add_text(m, i).q is Base,
{
    if m.open { lemma_mset(m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Base, n); } else { lemma_mpush(m, Part::Text(seq![i]), Q::Base, true, n); }
}
proof fn lemma_mitem(m: M, c: CI, q: Q, n: int)
    requires mlim(m, n), instr(m), parts(m).len() > 0, parts(m).last() is Cmd, lim_ci(c, n), q is Cmd || q is CmdLit && c is Lit, !(m.q is Group),
    ensures mlim(add_item(m, c, q), n), wf_q(add_item(m, c, q)),
{
    let items = parts(m).last()->Cmd_0;
    lemma_mset(m, Part::Cmd(items.push(c)), q, n);
    assert(items.push(c).last() == c);
}
proof fn lemma_mcmd(m: M, k: Tk, i: usize, n: int)
    requires mlim(m, n), wf_q(m), m.q is Cmd || m.q is CmdTick, step_cmd(m, k, i) is Some, i < n,
    ensures mlim(step_cmd(m, k, i)->Some_0, n), wf_q(step_cmd(m, k, i)->Some_0),
{
    if k.t == TokenType::Identifier { lemma_mitem(m, CI::Id(i), Q::Cmd, n); }
    else if k.t == TokenType::WhiteSpace {}
    else if is_g(k, "}"@) {}
    else if is_g(k, "`"@) { lemma_mitem(m, CI::Lit(Seq::empty()), Q::CmdLit, n); }
    else { lemma_mitem(m, CI::Sign(i), Q::Cmd, n); }
}
proof fn lemma_mlit(m: M, i: usize, n: int)
    requires mlim(m, n), wf_q(m), m.q is CmdLit || m.q is CmdTick, i < n,
    ensures mlim(add_lit(m, i), n), wf_q(add_lit(m, i)),
{
    let items = parts(m).last()->Cmd_0;
    let e = items.len() - 1;
    let its = items.update(e, CI::Lit(items.last()->Lit_0.push(i)));
    if lim(parts(m).last(), n) { assert(lim_ci(items[e], n)); }
    lemma_mset(m, Part::Cmd(its), Q::CmdLit, n);
    assert(its.last() == its[e]);
}
proof fn lemma_mbase(m: M, k: Tk, i: usize, n: int)
    requires mlim(m, n), wf_q(m), m.q is Base, step_base(m, k, i) is Some, i < n,
    ensures mlim(step_base(m, k, i)->Some_0, n), wf_q(step_base(m, k, i)->Some_0),
{
    if k.t != TokenType::Grammar { lemma_mtext(m, i, n); }
    else if k.s == "`"@ {} else if k.s == "{"@ {}
    else if k.s == "#"@ { if m.group { lemma_mpush(m, Part::Num(i), Q::Base, false, n); } }
}
proof fn lemma_mbody(m: M, k: Tk, i: usize, n: int)
    requires mlim(m, n), wf_q(m), m.q is Body, step_body(m, k, i) is Some, i < n,
    ensures mlim(step_body(m, k, i)->Some_0, n), wf_q(step_body(m, k, i)->Some_0),
{
    let e = M { open: false, ..with_parts(m, Seq::empty()) };
    let l = m.named.len() - 1;
    assert(lim_named(m.named[l], n));
    assert(lim_parts(Seq::empty(), n)) by { reveal(lim_parts); }
    assert(mlim(e, n));
    if k.t == TokenType::Identifier || k.t == TokenType::Syntax { lemma_mtext(e, i, n); }
    else if k.t == TokenType::WhiteSpace {}
    else if k.s == "#"@ { lemma_mpush(e, Part::Num(i), Q::Base, false, n); }
}
proof fn lemma_mstep(m: M, k: Tk, i: usize)
    requires mlim(m, i as int), wf_q(m), step(m, k, i) is Some,
    ensures mlim(step(m, k, i)->Some_0, i + 1), wf_q(step(m, k, i)->Some_0),
{
    let n = i + 1;
    lemma_mlim_more(m, i as int);
    match m.q {
        Q::Base => lemma_mbase(m, k, i, n),
        Q::Tick => lemma_mtext(m, i, n),
        Q::Open => {
            if k.t == TokenType::Identifier { lemma_mpush(m, Part::Pat { id: i, kw: None, sels: Seq::empty() }, Q::Pat, false, n); }
            else if is_g(k, "`"@) { lemma_mpush(m, Part::Text(Seq::empty()), Q::Lit, false, n); }
            else { lemma_mpush(m, Part::Cmd(Seq::empty()), Q::Cmd, false, n); }
        }
        Q::Pat => { if k.t == TokenType::Identifier { lemma_mset(m, Part::Pat { id: parts(m).last()->id, kw: Some(i), sels: Seq::empty() }, Q::Kw, n); } }
        Q::Kw => {}
        Q::Sel1(a) => {}
        Q::Sel2(a) => { let p = parts(m).last(); lemma_mset(m, Part::Pat { id: p->id, kw: p->kw, sels: p->sels.push((a, i)) }, Q::Kw, n); }
        Q::Lit | Q::LitTick => {
            if m.q is Lit && !is_g(k, "`"@) || m.q is LitTick && is_g(k, "`"@) { lemma_mset(m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Lit, n); }
        }
        Q::Cmd => lemma_mcmd(m, k, i, n),
        Q::CmdLit => { if !is_g(k, "`"@) { lemma_mlit(m, i, n); } }
        Q::CmdTick => { if is_g(k, "`"@) { lemma_mlit(m, i, n); } else { lemma_mcmd(m, k, i, n); } }
        Q::Group => {}
        Q::Name => {}
        Q::NameSep => {}
        Q::Body => lemma_mbody(m, k, i, n),
    }
}
proof fn lemma_limits(ts: Seq<Tk>, n: int)
    requires run(ts, n) is Some, 0 <= n <= usize::MAX,
    ensures mlim(run(ts, n)->Some_0, n), wf_q(run(ts, n)->Some_0),
    decreases n,
{
    reveal_with_fuel(run, 2);
    if n <= 0 { reveal(lim_parts); reveal(no_num); }
    else { lemma_limits(ts, n - 1); lemma_mstep(run(ts, n - 1)->Some_0, ts[n - 1], (n - 1) as usize); }
}
