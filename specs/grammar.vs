@mid
// ---- theorems about the grammar (T02): what acceptance means for a reader of the documentation -------
// options and selectors are name#value, of three adjacent tokens
pub open spec fn sel_form(ts: Seq<Tk>, s: (usize, usize), n: int) -> bool {
    s.1 == s.0 + 2 && s.1 < n && ts[s.0 as int].t == TokenType::Identifier && ts[s.0 + 1].s == "#"@ && ts[s.1 as int].t == TokenType::Identifier
}
pub open spec fn part_form(ts: Seq<Tk>, p: Part, n: int) -> bool {
    p is Pat ==> p->id < n && ts[p->id as int].t == TokenType::Identifier && (p->kw is Some ==> p->kw->Some_0 < n && ts[p->kw->Some_0 as int].t == TokenType::Identifier)
        && forall|j: int| 0 <= j < p->sels.len() ==> sel_form(ts, #[trigger] p->sels[j], n)
}
#[verifier::opaque]
pub open spec fn parts_form(ts: Seq<Tk>, ps: Seq<Part>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> part_form(ts, #[trigger] ps[i], n)
    &&& forall|i: int| 0 <= i < ps.len() - 1 && (#[trigger] ps[i]) is Num ==> !(ps[i + 1] is Num)
}
// string x of a pattern string: 0 is the main one
pub open spec fn string_of(m: M, x: int) -> Seq<Part> { if x == 0 { m.main } else if m.named[x - 1].parts is Some { m.named[x - 1].parts->Some_0 } else { Seq::empty() } }
pub open spec fn here(m: M) -> int { if m.group { m.named.len() as int } else { 0 } }
#[verifier::opaque]
pub open spec fn is_pat(m: M, x: int, i: int) -> bool { 0 <= x <= m.named.len() && 0 <= i < string_of(m, x).len() && string_of(m, x)[i] is Pat }
pub open spec fn pat_key(ts: Seq<Tk>, m: M, x: int, i: int) -> VpK { VpK::S(ts[string_of(m, x)[i]->id as int].s) }
#[verifier::opaque]
pub open spec fn pats_differ(ts: Seq<Tk>, m: M) -> bool {
    &&& forall|x: int, i: int| #[trigger] is_pat(m, x, i) ==> m.pats.contains(pat_key(ts, m, x, i))
    &&& forall|x: int, i: int, y: int, j: int| #[trigger] is_pat(m, x, i) && #[trigger] is_pat(m, y, j) && (x != y || i != j) ==> pat_key(ts, m, x, i) != pat_key(ts, m, y, j)
}
pub open spec fn named_key(ts: Seq<Tk>, m: M, k: int) -> VpK { VpK::S(ts[m.named[k].id->Some_0 as int].s) }
#[verifier::opaque]
pub open spec fn names_differ(ts: Seq<Tk>, m: M, n: int) -> bool {
    &&& forall|k: int| 0 <= k < m.named.len() && (#[trigger] m.named[k]).id is Some ==> m.named[k].id->Some_0 < n && ts[m.named[k].id->Some_0 as int].t == TokenType::Identifier && m.names.contains(named_key(ts, m, k))
    &&& forall|k: int, l: int| 0 <= k < m.named.len() && 0 <= l < m.named.len() && k != l && (#[trigger] m.named[k]).id is Some && (#[trigger] m.named[l]).id is Some ==> named_key(ts, m, k) != named_key(ts, m, l)
}
pub open spec fn gform(ts: Seq<Tk>, m: M, n: int) -> bool {
    &&& forall|x: int| 0 <= x <= m.named.len() ==> parts_form(ts, #[trigger] string_of(m, x), n)
    &&& pats_differ(ts, m)
    &&& names_differ(ts, m, n)
    &&& m.q matches Q::Sel1(a) ==> a == n - 1 && ts[a as int].t == TokenType::Identifier
    &&& m.q matches Q::Sel2(a) ==> a == n - 2 && ts[a as int].t == TokenType::Identifier && ts[a + 1].s == "#"@
    &&& !m.group ==> m.named.len() == 0
}
proof fn lemma_form_more(ts: Seq<Tk>, ps: Seq<Part>, n: int)
    requires parts_form(ts, ps, n),
    ensures parts_form(ts, ps, n + 1),
{
    reveal(parts_form);
    assert forall|i: int| 0 <= i < ps.len() implies part_form(ts, #[trigger] ps[i], n + 1) by {
        assert(part_form(ts, ps[i], n));
        if ps[i] is Pat { assert forall|j: int| 0 <= j < ps[i]->sels.len() implies sel_form(ts, #[trigger] ps[i]->sels[j], n + 1) by { assert(sel_form(ts, ps[i]->sels[j], n)); } }
    }
}
// only the last string changes, from parts(m) to ps; the patterns of both have the same placeholders
proof fn lemma_form_same(ts: Seq<Tk>, m: M, ps: Seq<Part>, q: Q, open: bool, n: int)
    requires
        gform(ts, m, n), instr(m), parts_form(ts, ps, n + 1), ps.len() >= parts(m).len(),
        forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]) is Pat ==> i < parts(m).len() && parts(m)[i] is Pat && parts(m)[i]->id == ps[i]->id,
        q matches Q::Sel1(a) ==> a == n && ts[a as int].t == TokenType::Identifier,
        q matches Q::Sel2(a) ==> a == n - 1 && ts[a as int].t == TokenType::Identifier && ts[a + 1].s == "#"@,
    ensures gform(ts, M { q, open, ..with_parts(m, ps) }, n + 1),
{
    let w = M { q, open, ..with_parts(m, ps) };
    assert forall|x: int| 0 <= x <= w.named.len() implies parts_form(ts, #[trigger] string_of(w, x), n + 1) by {
        assert(parts_form(ts, string_of(m, x), n));
        lemma_form_more(ts, string_of(m, x), n);
        if x == here(m) { assert(string_of(w, x) == ps); } else { assert(string_of(w, x) == string_of(m, x)); }
    }
    assert(string_of(m, here(m)) == parts(m));
    reveal(is_pat); reveal(pats_differ);
    assert forall|x: int, i: int| #[trigger] is_pat(w, x, i) implies is_pat(m, x, i) && pat_key(ts, w, x, i) == pat_key(ts, m, x, i) by {
        if x == here(m) { assert(string_of(w, x) == ps); assert(ps[i] is Pat); } else { assert(string_of(w, x) == string_of(m, x)); }
    }
    assert(names_differ(ts, w, n + 1)) by {
        reveal(names_differ);
        assert forall|k: int| 0 <= k < w.named.len() implies (#[trigger] w.named[k]).id == m.named[k].id by {}
    }
}
proof fn lemma_form_push(ts: Seq<Tk>, m: M, p: Part, q: Q, open: bool, n: int)
    requires gform(ts, m, n), instr(m), !(p is Pat), p is Num ==> parts(m).len() == 0 || !(parts(m).last() is Num), !(q is Sel1), !(q is Sel2),
    ensures gform(ts, push_part(m, p, q, open), n + 1),
{
    let x = here(m);
    assert(parts_form(ts, string_of(m, x), n));
    assert(parts(m) == string_of(m, x));
    lemma_form_more(ts, parts(m), n);
    reveal(parts_form);
    lemma_form_same(ts, m, parts(m).push(p), q, open, n);
}
proof fn lemma_form_last(ts: Seq<Tk>, m: M, p: Part, q: Q, n: int)
    requires
        gform(ts, m, n), instr(m), parts(m).len() > 0, !(p is Num), part_form(ts, parts(m).last(), n) ==> part_form(ts, p, n + 1), !(q is Sel1), !(q is Sel2),
        p is Pat ==> parts(m).last() is Pat && parts(m).last()->id == p->id,
    ensures gform(ts, set_last(m, p, q), n + 1),
{
    let x = here(m);
    assert(parts_form(ts, string_of(m, x), n));
    assert(parts(m) == string_of(m, x));
    assert(part_form(ts, parts(m)[parts(m).len() - 1], n)) by { reveal(parts_form); }
    lemma_form_more(ts, parts(m), n);
    assert(parts_form(ts, parts(m).update(parts(m).len() - 1, p), n + 1)) by { reveal(parts_form); }
    lemma_form_same(ts, m, parts(m).update(parts(m).len() - 1, p), q, m.open, n);
}
proof fn lemma_form_at(ts: Seq<Tk>, m: M, q: Q, open: bool, n: int)
    requires
        gform(ts, m, n), q matches Q::Sel1(a) ==> a == n && ts[a as int].t == TokenType::Identifier,
        q matches Q::Sel2(a) ==> a == n - 1 && ts[a as int].t == TokenType::Identifier && ts[a + 1].s == "#"@,
    ensures gform(ts, M { q, open, ..m }, n + 1),
{
    let w = M { q, open, ..m };
    assert forall|x: int| 0 <= x <= w.named.len() implies parts_form(ts, #[trigger] string_of(w, x), n + 1) by { assert(parts_form(ts, string_of(m, x), n)); lemma_form_more(ts, string_of(m, x), n); }
    assert(pats_differ(ts, w)) by { reveal(pats_differ); reveal(is_pat); assert forall|x: int, i: int| #[trigger] is_pat(w, x, i) == is_pat(m, x, i) && pat_key(ts, w, x, i) == pat_key(ts, m, x, i) by {} }
    assert(names_differ(ts, w, n + 1)) by { reveal(names_differ); assert forall|k: int| 0 <= k < w.named.len() implies (#[trigger] w.named[k]) == m.named[k] && named_key(ts, w, k) == named_key(ts, m, k) by {} }
}
proof fn lemma_form_pat(ts: Seq<Tk>, m: M, n: int)
    requires gform(ts, m, n), instr(m), 0 <= n <= usize::MAX, ts[n].t == TokenType::Identifier, !m.pats.contains(VpK::S(ts[n].s)),
    ensures gform(ts, M { pats: m.pats.insert(VpK::S(ts[n].s)), ..push_part(m, Part::Pat { id: n as usize, kw: None, sels: Seq::empty() }, Q::Pat, false) }, n + 1),
{
    let p = Part::Pat { id: n as usize, kw: None, sels: Seq::empty() };
    let w = M { pats: m.pats.insert(VpK::S(ts[n].s)), ..push_part(m, p, Q::Pat, false) };
    let h = here(m);
    let ps = parts(m).push(p);
    assert(parts(m) == string_of(m, h));
    assert(part_form(ts, p, n + 1));
    assert forall|x: int| 0 <= x <= w.named.len() implies parts_form(ts, #[trigger] string_of(w, x), n + 1) by {
        assert(parts_form(ts, string_of(m, x), n));
        lemma_form_more(ts, string_of(m, x), n);
        if x == h { assert(string_of(w, x) == ps); reveal(parts_form); } else { assert(string_of(w, x) == string_of(m, x)); }
    }
    let nk = VpK::S(ts[n].s);
    assert(pats_differ(ts, w)) by {
        reveal(is_pat); reveal(pats_differ);
        assert forall|x: int, i: int| #[trigger] is_pat(w, x, i) implies
            if x == h && i == parts(m).len() { pat_key(ts, w, x, i) == nk } else { is_pat(m, x, i) && pat_key(ts, w, x, i) == pat_key(ts, m, x, i) && m.pats.contains(pat_key(ts, m, x, i)) && pat_key(ts, m, x, i) != nk } by {
            if x == h { assert(string_of(w, x) == ps); } else { assert(string_of(w, x) == string_of(m, x)); }
            if x == h && i == parts(m).len() {} else { assert(is_pat(m, x, i)); }
        }
    }
    assert(names_differ(ts, w, n + 1)) by {
        reveal(names_differ);
        assert forall|k: int| 0 <= k < w.named.len() implies (#[trigger] w.named[k]).id == m.named[k].id by {}
    }
}
proof fn lemma_form_text(ts: Seq<Tk>, m: M, i: usize, n: int)
    requires gform(ts, m, n), instr(m), m.open ==> parts(m).len() > 0 && parts(m).last() is Text,
    ensures gform(ts, add_text(m, i), n + 1),
{
    if m.open { lemma_form_last(ts, m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Base, n); } else { lemma_form_push(ts, m, Part::Text(seq![i]), Q::Base, true, n); }
}
// the string of a named string begins
proof fn lemma_form_begin(ts: Seq<Tk>, m: M, n: int)
    requires gform(ts, m, n), wf_q(m), m.q is Body,
    ensures gform(ts, M { open: false, ..with_parts(m, Seq::empty()) }, n), instr(M { open: false, ..with_parts(m, Seq::empty()) }), parts(with_parts(m, Seq::empty())).len() == 0,
{
    let w = M { open: false, ..with_parts(m, Seq::empty()) };
    assert forall|x: int| 0 <= x <= w.named.len() implies #[trigger] string_of(w, x) == string_of(m, x) by {}
    assert forall|x: int| 0 <= x <= w.named.len() implies parts_form(ts, #[trigger] string_of(w, x), n) by { assert(parts_form(ts, string_of(m, x), n)); }
    assert(pats_differ(ts, w)) by { reveal(pats_differ); reveal(is_pat); assert forall|x: int, i: int| #[trigger] is_pat(w, x, i) implies is_pat(m, x, i) && pat_key(ts, w, x, i) == pat_key(ts, m, x, i) by {} }
    assert(names_differ(ts, w, n)) by { reveal(names_differ); assert forall|k: int| 0 <= k < w.named.len() implies (#[trigger] w.named[k]).id == m.named[k].id by {} }
}
// the last named string becomes nd, or is added
proof fn lemma_form_named(ts: Seq<Tk>, m: M, w: M, n: int)
    requires
        gform(ts, m, n), m.group, w.group, w.pats == m.pats, w.main == m.main, !(w.q is Sel1), !(w.q is Sel2), 0 <= n <= usize::MAX,
        ({ &&& w.named == m.named.push(Named { id: None, parts: None }) && w.names == m.names })
        || ({ &&& m.named.len() > 0 && m.named.last() == (Named { id: None, parts: None }) && w.named == m.named.update(m.named.len() - 1, Named { id: Some(n as usize), parts: None })
              &&& w.names == m.names.insert(VpK::S(ts[n].s)) && !m.names.contains(VpK::S(ts[n].s)) && ts[n].t == TokenType::Identifier }),
    ensures gform(ts, w, n + 1),
{
    assert forall|x: int| 0 <= x <= w.named.len() implies parts_form(ts, #[trigger] string_of(w, x), n + 1) by {
        if x <= m.named.len() { assert(string_of(w, x) =~= string_of(m, x)); assert(parts_form(ts, string_of(m, x), n)); lemma_form_more(ts, string_of(m, x), n); }
        else { assert(string_of(w, x) =~= Seq::empty()); reveal(parts_form); }
    }
    assert(pats_differ(ts, w)) by {
        reveal(pats_differ); reveal(is_pat);
        assert forall|x: int, i: int| #[trigger] is_pat(w, x, i) implies is_pat(m, x, i) && pat_key(ts, w, x, i) == pat_key(ts, m, x, i) by {
            if x <= m.named.len() { assert(string_of(w, x) =~= string_of(m, x)); } else { assert(string_of(w, x) =~= Seq::empty()); }
        }
    }
    assert(names_differ(ts, w, n + 1)) by {
        reveal(names_differ);
        let l = m.named.len() - 1;
        assert forall|k: int| 0 <= k < w.named.len() && (#[trigger] w.named[k]).id is Some implies
            if w.named.len() == m.named.len() && k == l { named_key(ts, w, k) == VpK::S(ts[n].s) }
            else { k < m.named.len() && m.named[k] == w.named[k] && named_key(ts, w, k) == named_key(ts, m, k) && m.names.contains(named_key(ts, m, k)) && m.named[k].id->Some_0 < n } by {}
    }
}
proof fn lemma_form_item(ts: Seq<Tk>, m: M, c: CI, q: Q, n: int)
    requires gform(ts, m, n), instr(m), parts(m).len() > 0, parts(m).last() is Cmd, !(q is Sel1), !(q is Sel2),
    ensures gform(ts, add_item(m, c, q), n + 1),
{ lemma_form_last(ts, m, Part::Cmd(parts(m).last()->Cmd_0.push(c)), q, n); }
proof fn lemma_form_cmd(ts: Seq<Tk>, m: M, k: Tk, i: usize, n: int)
    requires gform(ts, m, n), wf_q(m), m.q is Cmd || m.q is CmdTick, step_cmd(m, k, i) is Some,
    ensures gform(ts, step_cmd(m, k, i)->Some_0, n + 1),
{
    if k.t == TokenType::Identifier { lemma_form_item(ts, m, CI::Id(i), Q::Cmd, n); }
    else if k.t == TokenType::WhiteSpace { lemma_form_at(ts, m, Q::Cmd, m.open, n); }
    else if is_g(k, "}"@) { lemma_form_at(ts, m, Q::Base, false, n); }
    else if is_g(k, "`"@) { lemma_form_item(ts, m, CI::Lit(Seq::empty()), Q::CmdLit, n); }
    else { lemma_form_item(ts, m, CI::Sign(i), Q::Cmd, n); }
}
proof fn lemma_form_lit(ts: Seq<Tk>, m: M, i: usize, n: int)
    requires gform(ts, m, n), wf_q(m), m.q is CmdLit || m.q is CmdTick,
    ensures gform(ts, add_lit(m, i), n + 1),
{ let items = parts(m).last()->Cmd_0; lemma_form_last(ts, m, Part::Cmd(items.update(items.len() - 1, CI::Lit(items.last()->Lit_0.push(i)))), Q::CmdLit, n); }
proof fn lemma_form_base(ts: Seq<Tk>, m: M, k: Tk, i: usize, n: int)
    requires gform(ts, m, n), wf_q(m), m.q is Base, step_base(m, k, i) is Some,
    ensures gform(ts, step_base(m, k, i)->Some_0, n + 1),
{
    if k.t != TokenType::Grammar { lemma_form_text(ts, m, i, n); }
    else if k.s == "`"@ { lemma_form_at(ts, m, Q::Tick, m.open, n); }
    else if k.s == "{"@ { lemma_form_at(ts, m, Q::Open, m.open, n); }
    else if k.s == "#"@ {
        if m.group { lemma_form_push(ts, m, Part::Num(i), Q::Base, false, n); }
        else { lemma_form_at(ts, m, Q::Group, false, n); let w = M { q: Q::Group, open: false, ..m }; lemma_form_group(ts, w, n + 1); }
    }
    else { lemma_form_at(ts, m, Q::Group, false, n); }
}
proof fn lemma_form_group(ts: Seq<Tk>, m: M, n: int)
    requires gform(ts, m, n), !m.group,
    ensures gform(ts, M { group: true, ..m }, n),
{
    let w = M { group: true, ..m };
    assert forall|x: int| 0 <= x <= w.named.len() implies parts_form(ts, #[trigger] string_of(w, x), n) by { assert(parts_form(ts, string_of(m, x), n)); }
    assert(pats_differ(ts, w)) by { reveal(pats_differ); reveal(is_pat); assert forall|x: int, i: int| #[trigger] is_pat(w, x, i) == is_pat(m, x, i) && pat_key(ts, w, x, i) == pat_key(ts, m, x, i) by {} }
    assert(names_differ(ts, w, n)) by { reveal(names_differ); }
}
proof fn lemma_form_body(ts: Seq<Tk>, m: M, k: Tk, i: usize, n: int)
    requires gform(ts, m, n), wf_q(m), m.q is Body, step_body(m, k, i) is Some,
    ensures gform(ts, step_body(m, k, i)->Some_0, n + 1),
{
    let e = M { open: false, ..with_parts(m, Seq::empty()) };
    lemma_form_begin(ts, m, n);
    if k.t == TokenType::Identifier || k.t == TokenType::Syntax { lemma_form_text(ts, e, i, n); }
    else if k.t == TokenType::WhiteSpace { lemma_form_at(ts, m, m.q, m.open, n); }
    else if k.s == "#"@ { lemma_form_push(ts, e, Part::Num(i), Q::Base, false, n); }
    else if k.s == "{"@ { lemma_form_at(ts, e, Q::Open, e.open, n); }
    else { lemma_form_at(ts, e, Q::Tick, e.open, n); }
}
proof fn lemma_form_step(ts: Seq<Tk>, m: M, n: int)
    requires gform(ts, m, n), wf_q(m), step(m, ts[n], n as usize) is Some, 0 <= n <= usize::MAX,
    ensures gform(ts, step(m, ts[n], n as usize)->Some_0, n + 1),
{
    let i = n as usize;
    let k = ts[n];
    match m.q {
        Q::Base => lemma_form_base(ts, m, k, i, n),
        Q::Tick => lemma_form_text(ts, m, i, n),
        Q::Open => {
            if k.t == TokenType::Identifier { lemma_form_pat(ts, m, n); }
            else if is_g(k, "`"@) { lemma_form_push(ts, m, Part::Text(Seq::empty()), Q::Lit, false, n); }
            else { lemma_form_push(ts, m, Part::Cmd(Seq::empty()), Q::Cmd, false, n); }
        }
        Q::Pat => {
            if k.t == TokenType::Identifier { lemma_form_last(ts, m, Part::Pat { id: parts(m).last()->id, kw: Some(i), sels: Seq::empty() }, Q::Kw, n); }
            else if k.t == TokenType::WhiteSpace { lemma_form_at(ts, m, m.q, m.open, n); }
            else { lemma_form_at(ts, m, Q::Base, false, n); }
        }
        Q::Kw => {
            if k.t == TokenType::Identifier { lemma_form_at(ts, m, Q::Sel1(i), m.open, n); }
            else if k.t == TokenType::WhiteSpace { lemma_form_at(ts, m, m.q, m.open, n); }
            else { lemma_form_at(ts, m, Q::Base, false, n); }
        }
        Q::Sel1(a) => lemma_form_at(ts, m, Q::Sel2(a), m.open, n),
        Q::Sel2(a) => {
            let p = parts(m).last();
            let p2 = Part::Pat { id: p->id, kw: p->kw, sels: p->sels.push((a, i)) };
            assert(sel_form(ts, (a, i), n + 1));
            if part_form(ts, p, n) {
                assert forall|j: int| 0 <= j < p2->sels.len() implies sel_form(ts, #[trigger] p2->sels[j], n + 1) by { if j < p->sels.len() { assert(sel_form(ts, p->sels[j], n)); } }
            }
            lemma_form_last(ts, m, p2, Q::Kw, n);
        }
        Q::Lit => {
            if is_g(k, "`"@) { lemma_form_at(ts, m, Q::LitTick, m.open, n); }
            else { lemma_form_last(ts, m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Lit, n); }
        }
        Q::LitTick => {
            if is_g(k, "`"@) { lemma_form_last(ts, m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Lit, n); }
            else { lemma_form_at(ts, m, Q::Base, false, n); }
        }
        Q::Cmd => lemma_form_cmd(ts, m, k, i, n),
        Q::CmdLit => { if is_g(k, "`"@) { lemma_form_at(ts, m, Q::CmdTick, m.open, n); } else { lemma_form_lit(ts, m, i, n); } }
        Q::CmdTick => { if is_g(k, "`"@) { lemma_form_lit(ts, m, i, n); } else { lemma_form_cmd(ts, m, k, i, n); } }
        Q::Group => {
            if is_g(k, "{"@) { lemma_form_named(ts, m, step(m, k, i)->Some_0, n); } else { lemma_form_at(ts, m, m.q, m.open, n); }
        }
        Q::Name => {
            if k.t == TokenType::WhiteSpace { lemma_form_at(ts, m, m.q, m.open, n); } else { lemma_form_named(ts, m, step(m, k, i)->Some_0, n); }
        }
        Q::NameSep => lemma_form_at(ts, m, Q::Body, m.open, n),
        Q::Body => lemma_form_body(ts, m, k, i, n),
    }
}
// an accepted pattern string: placeholders differ, identifiers of named strings differ, name#value pairs, no adjacent number signs
proof fn theorem_accepted_form(ts: Seq<Tk>, n: int)
    requires run(ts, n) is Some, 0 <= n <= usize::MAX,
    ensures gform(ts, run(ts, n)->Some_0, n),
    decreases n,
{
    reveal_with_fuel(run, 2);
    if n <= 0 {
        let m = init();
        assert forall|x: int| 0 <= x <= m.named.len() implies parts_form(ts, #[trigger] string_of(m, x), 0) by { reveal(parts_form); }
        assert(pats_differ(ts, m)) by { reveal(pats_differ); reveal(is_pat); }
        assert(names_differ(ts, m, 0)) by { reveal(names_differ); }
    } else { theorem_accepted_form(ts, n - 1); lemma_limits(ts, n - 1); lemma_form_step(ts, run(ts, n - 1)->Some_0, n - 1); }
}
// an accepted pattern string ends in the main string, or after a complete named string: nothing is left open
proof fn theorem_accepted_complete(ts: Seq<Tk>)
    requires accepted(ts), ts.len() <= usize::MAX,
    ensures
        ({ let m = run(ts, ts.len() as int)->Some_0; &&& m.group ==> m.q is Group &&& !m.group ==> m.q is Base && m.named.len() == 0
           &&& forall|k: int| 0 <= k < m.named.len() ==> complete(#[trigger] m.named[k]) &&& no_num(m.main) }),
{ lemma_limits(ts, ts.len() as int); }
