@mid
// ---- tokens, nodes and the abstract syntax of a pattern string ---------------------------------
pub struct Tk { pub t: TokenType, pub s: Seq<char> }
pub open spec fn tks(s: Seq<Token>) -> Seq<Tk> { s.map_values(|t: Token| Tk { t: t.token_type, s: t.string@ }) }
pub open spec fn is_g(k: Tk, s: Seq<char>) -> bool { k.t == TokenType::Grammar && k.s == s }
pub struct NodeV { pub typ: NodeType, pub parent: Option<usize>, pub children: Option<Seq<usize>>, pub toks: Option<Seq<usize>> }
pub open spec fn seq_of(v: Option<Vec<usize>>) -> Option<Seq<usize>> { match v { Some(x) => Some(x@), None => None } }
pub open spec fn nodev(n: Node) -> NodeV { NodeV { typ: n.node_type, parent: n.parent, children: seq_of(n.children), toks: seq_of(n.tokens) } }
pub open spec fn nv(s: Seq<Node>) -> Seq<NodeV> { s.map_values(|n: Node| nodev(n)) }
pub open spec fn allow_c(t: NodeType) -> bool {
    t == NodeType::Root || t == NodeType::String || t == NodeType::NamedGroup || t == NodeType::NamedString || t == NodeType::Selector
        || t == NodeType::Pattern || t == NodeType::Command
}
pub open spec fn allow_t(t: NodeType) -> bool { t == NodeType::Text || t == NodeType::NumberSign || t == NodeType::Identifier }
pub open spec fn node_ok(n: Seq<NodeV>, i: int) -> bool {
    &&& n[i].children is Some <==> allow_c(n[i].typ)
    &&& n[i].toks is Some <==> allow_t(n[i].typ)
    &&& n[i].parent is None <==> i == 0
    &&& n[i].parent is Some ==> n[i].parent->Some_0 < i && allow_c(n[n[i].parent->Some_0 as int].typ)
}
// every node has children or tokens according to its type, and a parent that may have children
pub open spec fn wfn(n: Seq<NodeV>) -> bool {
    &&& n.len() > 0
    &&& n.len() <= usize::MAX
    &&& n[0].typ == NodeType::Root
    &&& forall|i: int| 0 <= i < n.len() ==> #[trigger] node_ok(n, i)
}
// parts of a string, by the indices of their tokens
pub enum CI { Id(usize), Sign(usize), Lit(Seq<usize>) }
pub enum Part { Text(Seq<usize>), Num(usize), Pat { id: usize, kw: Option<usize>, sels: Seq<(usize, usize)> }, Cmd(Seq<CI>) }
pub struct Named { pub id: Option<usize>, pub parts: Option<Seq<Part>> }

// ---- the tree that represents them: every node lies in the interval [i, hi) of its part --------
pub open spec fn leaf(n: Seq<NodeV>, j: usize, typ: NodeType, par: usize, toks: Seq<usize>, lo: int, hi: int) -> bool {
    lo < j < hi <= n.len() && n[j as int] == (NodeV { typ, parent: Some(par), children: None, toks: Some(toks) })
}
pub open spec fn sel_at(n: Seq<NodeV>, j: usize, s: (usize, usize), par: usize, lo: int, hi: int) -> bool {
    &&& lo < j < hi <= n.len()
    &&& n[j as int].typ == NodeType::Selector && n[j as int].parent == Some(par) && n[j as int].toks is None && n[j as int].children is Some
    &&& n[j as int].children->Some_0.len() == 2
    &&& leaf(n, n[j as int].children->Some_0[0], NodeType::Identifier, j, seq![s.0], j as int, hi)
    &&& leaf(n, n[j as int].children->Some_0[1], NodeType::Identifier, j, seq![s.1], j as int, hi)
}
pub open spec fn ci_at(n: Seq<NodeV>, j: usize, c: CI, par: usize, lo: int, hi: int) -> bool {
    match c {
        CI::Id(t) => leaf(n, j, NodeType::Identifier, par, seq![t], lo, hi),
        CI::Sign(t) => leaf(n, j, NodeType::NumberSign, par, seq![t], lo, hi),
        CI::Lit(ts) => leaf(n, j, NodeType::Text, par, ts, lo, hi),
    }
}
#[verifier::opaque]
pub open spec fn sorted(c: Seq<usize>) -> bool { forall|k: int, l: int| 0 <= k < l < c.len() ==> #[trigger] c[k] < #[trigger] c[l] }
pub proof fn lemma_sorted(c: Seq<usize>, k: int, l: int)
    requires sorted(c), 0 <= k < l < c.len(),
    ensures c[k] < c[l],
{ reveal(sorted); }
pub proof fn lemma_sorted_push(c: Seq<usize>, x: usize)
    requires sorted(c), c.len() > 0 ==> c.last() < x,
    ensures sorted(c.push(x)),
{
    reveal(sorted);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] < x by { if k < c.len() - 1 { assert(c[k] < c[c.len() - 1]); } }
}
pub open spec fn kids(n: Seq<NodeV>, i: usize) -> Seq<usize> { n[i as int].children->Some_0 }
#[verifier::opaque]
pub open spec fn pat_at(n: Seq<NodeV>, i: usize, id: usize, kw: Option<usize>, sels: Seq<(usize, usize)>, hi: int) -> bool {
    let c = kids(n, i);
    &&& n[i as int].typ == NodeType::Pattern && n[i as int].toks is None && n[i as int].children is Some
    &&& c.len() == 1 + (if kw is Some { 1int } else { 0 }) + sels.len()
    &&& kw is None ==> sels.len() == 0
    &&& leaf(n, c[0], NodeType::Identifier, i, seq![id], i as int, hi)
    &&& kw is Some ==> leaf(n, c[1], NodeType::Identifier, i, seq![kw->Some_0], i as int, hi)
    &&& forall|k: int| 0 <= k < sels.len() ==> sel_at(n, #[trigger] c[k + 2], sels[k], i, i as int, hi)
}
#[verifier::opaque]
pub open spec fn cmd_at(n: Seq<NodeV>, i: usize, items: Seq<CI>, hi: int) -> bool {
    let c = kids(n, i);
    &&& n[i as int].typ == NodeType::Command && n[i as int].toks is None && n[i as int].children is Some
    &&& c.len() == items.len()
    &&& forall|k: int| 0 <= k < items.len() ==> ci_at(n, #[trigger] c[k], items[k], i, i as int, hi)
    &&& sorted(c)
}
pub open spec fn part_at(n: Seq<NodeV>, i: usize, p: Part, par: usize, hi: int) -> bool {
    &&& i < hi <= n.len() && n[i as int].parent == Some(par)
    &&& match p {
        Part::Text(ts) => leaf(n, i, NodeType::Text, par, ts, par as int, hi),
        Part::Num(t) => leaf(n, i, NodeType::NumberSign, par, seq![t], par as int, hi),
        Part::Pat { id, kw, sels } => pat_at(n, i, id, kw, sels, hi),
        Part::Cmd(items) => cmd_at(n, i, items, hi),
    }
}
pub open spec fn next_of(c: Seq<usize>, k: int, hi: int) -> int { if k + 1 < c.len() { c[k + 1] as int } else { hi } }
pub open spec fn str_kid(n: Seq<NodeV>, i: usize, c: Seq<usize>, parts: Seq<Part>, k: int, hi: int) -> bool {
    i < c[k] < hi && part_at(n, c[k], parts[k], i, next_of(c, k, hi))
}
pub open spec fn grp_kid(n: Seq<NodeV>, g: usize, c: Seq<usize>, named: Seq<Named>, k: int, hi: int) -> bool {
    g < c[k] < hi && named_at(n, c[k], named[k], g, next_of(c, k, hi))
}
#[verifier::opaque]
pub open spec fn str_at(n: Seq<NodeV>, i: usize, parts: Seq<Part>, par: usize, hi: int) -> bool {
    let c = kids(n, i);
    &&& i < hi <= n.len()
    &&& n[i as int].typ == NodeType::String && n[i as int].toks is None && n[i as int].parent == Some(par) && n[i as int].children is Some
    &&& c.len() == parts.len()
    &&& c.len() > 0 ==> i < c[0]
    &&& sorted(c)
    &&& forall|k: int| 0 <= k < c.len() ==> #[trigger] str_kid(n, i, c, parts, k, hi)
}
#[verifier::opaque]
pub open spec fn named_at(n: Seq<NodeV>, i: usize, nd: Named, par: usize, hi: int) -> bool {
    let c = kids(n, i);
    &&& i < hi <= n.len()
    &&& n[i as int].typ == NodeType::NamedString && n[i as int].toks is None && n[i as int].parent == Some(par) && n[i as int].children is Some
    &&& c.len() == (if nd.id is Some { 1int } else { 0 }) + (if nd.parts is Some { 1int } else { 0 })
    &&& nd.parts is Some ==> nd.id is Some
    &&& nd.id is Some ==> leaf(n, c[0], NodeType::Identifier, i, seq![nd.id->Some_0], i as int, if nd.parts is Some { c[1] as int } else { hi })
    &&& nd.parts is Some ==> c[0] < c[1] && str_at(n, c[1], nd.parts->Some_0, i, hi)
}
#[verifier::opaque]
pub open spec fn grp_at(n: Seq<NodeV>, g: usize, named: Seq<Named>, hi: int) -> bool {
    let c = kids(n, g);
    &&& 1 < g < hi <= n.len()
    &&& n[g as int].typ == NodeType::NamedGroup && n[g as int].toks is None && n[g as int].parent == Some(0usize) && n[g as int].children is Some
    &&& c.len() == named.len()
    &&& sorted(c)
    &&& forall|k: int| 0 <= k < c.len() ==> #[trigger] grp_kid(n, g, c, named, k, hi)
}
pub open spec fn tree_at(n: Seq<NodeV>, main: Seq<Part>, group: bool, named: Seq<Named>) -> bool {
    &&& n.len() >= 2
    &&& n[0].typ == NodeType::Root && n[0].parent is None && n[0].toks is None && n[0].children is Some
    &&& kids(n, 0).len() == if group { 2int } else { 1 }
    &&& kids(n, 0)[0] == 1
    &&& str_at(n, 1, main, 0, if group { kids(n, 0)[1] as int } else { n.len() as int })
    &&& group ==> grp_at(n, kids(n, 0)[1], named, n.len() as int)
    &&& !group ==> named.len() == 0
}
// ---- the grammar: a pattern string is accepted token by token -----------------------------------
pub enum Q { Base, Tick, Open, Pat, Kw, Sel1(usize), Sel2(usize), Lit, LitTick, Cmd, CmdLit, CmdTick, Group, Name, NameSep, Body }
pub struct M {
    pub q: Q,
    pub open: bool, // the last part is a text that the next text token belongs to
    pub main: Seq<Part>,
    pub group: bool, // within the group of named strings
    pub named: Seq<Named>,
    pub names: Set<VpK>,
    pub pats: Set<VpK>,
}
pub open spec fn init() -> M {
    M { q: Q::Base, open: false, main: Seq::empty(), group: false, named: Seq::empty(), names: Set::empty(), pats: Set::empty() }
}
pub open spec fn parts(m: M) -> Seq<Part> { if m.group { m.named.last().parts->Some_0 } else { m.main } }
pub open spec fn with_parts(m: M, p: Seq<Part>) -> M {
    if m.group { M { named: m.named.update(m.named.len() - 1, Named { id: m.named.last().id, parts: Some(p) }), ..m } } else { M { main: p, ..m } }
}
pub open spec fn at(m: M, q: Q) -> M { M { q, ..m } }
pub open spec fn push_part(m: M, p: Part, q: Q, open: bool) -> M { M { q, open, ..with_parts(m, parts(m).push(p)) } }
pub open spec fn set_last(m: M, p: Part, q: Q) -> M { at(with_parts(m, parts(m).update(parts(m).len() - 1, p)), q) }
// a text token: of the open text, or the first of a new one
pub open spec fn add_text(m: M, i: usize) -> M {
    if m.open { set_last(m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Base) } else { push_part(m, Part::Text(seq![i]), Q::Base, true) }
}
pub open spec fn close_part(m: M) -> M { M { q: Q::Base, open: false, ..m } }
pub open spec fn with_name(m: M, nd: Named, q: Q) -> M { M { q, open: false, named: m.named.update(m.named.len() - 1, nd), ..m } }
pub open spec fn add_item(m: M, c: CI, q: Q) -> M { set_last(m, Part::Cmd(parts(m).last()->Cmd_0.push(c)), q) }
pub open spec fn step_base(m: M, k: Tk, i: usize) -> Option<M> {
    if k.t != TokenType::Grammar { Some(add_text(m, i)) }
    else if k.s == "`"@ { Some(at(m, Q::Tick)) }
    else if k.s == "{"@ { Some(at(m, Q::Open)) }
    else if k.s == "#"@ {
        if !m.group { Some(M { q: Q::Group, open: false, group: true, ..m }) }
        else if parts(m).len() > 0 && parts(m).last() is Num { None }
        else { Some(push_part(m, Part::Num(i), Q::Base, false)) }
    }
    else if k.s == "}"@ && m.group { Some(M { q: Q::Group, open: false, ..m }) }
    else { None }
}
pub open spec fn step_open(m: M, k: Tk, i: usize) -> Option<M> {
    if k.t == TokenType::Identifier {
        if m.pats.contains(VpK::S(k.s)) { None }
        else { Some(M { pats: m.pats.insert(VpK::S(k.s)), ..push_part(m, Part::Pat { id: i, kw: None, sels: Seq::empty() }, Q::Pat, false) }) }
    }
    else if is_g(k, "`"@) { Some(push_part(m, Part::Text(Seq::empty()), Q::Lit, false)) }
    else if is_g(k, "#"@) { Some(push_part(m, Part::Cmd(Seq::empty()), Q::Cmd, false)) }
    else { None }
}
pub open spec fn step_cmd(m: M, k: Tk, i: usize) -> Option<M> {
    if k.t == TokenType::Identifier { Some(add_item(m, CI::Id(i), Q::Cmd)) }
    else if k.t == TokenType::WhiteSpace { Some(at(m, Q::Cmd)) }
    else if is_g(k, "}"@) { if parts(m).last()->Cmd_0.len() == 0 { None } else { Some(close_part(m)) } }
    else if is_g(k, "`"@) { Some(add_item(m, CI::Lit(Seq::empty()), Q::CmdLit)) }
    else if is_g(k, "#"@) { if parts(m).last()->Cmd_0.len() != 1 { None } else { Some(add_item(m, CI::Sign(i), Q::Cmd)) } }
    else { None }
}
// a token of the literal text of a command parameter
pub open spec fn add_lit(m: M, i: usize) -> M {
    let items = parts(m).last()->Cmd_0;
    set_last(m, Part::Cmd(items.update(items.len() - 1, CI::Lit(items.last()->Lit_0.push(i)))), Q::CmdLit)
}
pub open spec fn step_body(m: M, k: Tk, i: usize) -> Option<M> {
    let e = M { open: false, ..with_parts(m, Seq::empty()) };
    if k.t == TokenType::Identifier || k.t == TokenType::Syntax { Some(add_text(e, i)) }
    else if k.t == TokenType::WhiteSpace { Some(m) }
    else if k.s == "#"@ { Some(push_part(e, Part::Num(i), Q::Base, false)) }
    else if k.s == "{"@ { Some(at(e, Q::Open)) }
    else if k.s == "`"@ { Some(at(e, Q::Tick)) }
    else { None }
}
pub open spec fn step(m: M, k: Tk, i: usize) -> Option<M> {
    match m.q {
        Q::Base => step_base(m, k, i),
        Q::Tick => Some(add_text(m, i)),
        Q::Open => step_open(m, k, i),
        Q::Pat =>
            if k.t == TokenType::Identifier { Some(set_last(m, Part::Pat { id: parts(m).last()->id, kw: Some(i), sels: Seq::empty() }, Q::Kw)) }
            else if k.t == TokenType::WhiteSpace { Some(m) }
            else if is_g(k, "}"@) { Some(close_part(m)) }
            else { None },
        Q::Kw =>
            if k.t == TokenType::Identifier { Some(at(m, Q::Sel1(i))) }
            else if k.t == TokenType::WhiteSpace { Some(m) }
            else if is_g(k, "}"@) { Some(close_part(m)) }
            else { None },
        Q::Sel1(a) => if k.s == "#"@ { Some(at(m, Q::Sel2(a))) } else { None },
        Q::Sel2(a) =>
            if k.t == TokenType::Identifier {
                let p = parts(m).last();
                Some(set_last(m, Part::Pat { id: p->id, kw: p->kw, sels: p->sels.push((a, i)) }, Q::Kw))
            } else { None },
        Q::Lit => if is_g(k, "`"@) { Some(at(m, Q::LitTick)) } else { Some(set_last(m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Lit)) },
        Q::LitTick =>
            if is_g(k, "`"@) { Some(set_last(m, Part::Text(parts(m).last()->Text_0.push(i)), Q::Lit)) }
            else if is_g(k, "}"@) { Some(close_part(m)) }
            else { None },
        Q::Cmd => step_cmd(m, k, i),
        Q::CmdLit => if is_g(k, "`"@) { Some(at(m, Q::CmdTick)) } else { Some(add_lit(m, i)) },
        Q::CmdTick => if is_g(k, "`"@) { Some(add_lit(m, i)) } else { step_cmd(m, k, i) },
        Q::Group =>
            if is_g(k, "{"@) { Some(M { q: Q::Name, named: m.named.push(Named { id: None, parts: None }), ..m }) }
            else if k.t == TokenType::WhiteSpace { Some(m) }
            else { None },
        Q::Name =>
            if k.t == TokenType::Identifier && !m.names.contains(VpK::S(k.s)) {
                Some(M { names: m.names.insert(VpK::S(k.s)), ..with_name(m, Named { id: Some(i), parts: None }, Q::NameSep) })
            } else { None },
        Q::NameSep => if k.t == TokenType::WhiteSpace { Some(at(m, Q::Body)) } else { None },
        Q::Body => step_body(m, k, i),
    }
}
#[verifier::opaque]
pub open spec fn run(ts: Seq<Tk>, n: int) -> Option<M>
    decreases n,
{
    if n <= 0 { Some(init()) } else { match run(ts, n - 1) { Some(m) => step(m, ts[n - 1], (n - 1) as usize), None => None } }
}
// the documented form: text with patterns, optionally followed by a group of complete named strings
pub open spec fn accepted(ts: Seq<Tk>) -> bool {
    match run(ts, ts.len() as int) { Some(m) => if m.group { m.q is Group } else { m.q is Base }, None => false }
}
pub open spec fn instr(m: M) -> bool { m.group ==> m.named.len() > 0 && m.named.last().parts is Some && m.named.last().id is Some }
pub open spec fn wf_q(m: M) -> bool {
    match m.q {
        Q::Base | Q::Tick | Q::Open => instr(m) && (m.open ==> parts(m).len() > 0 && parts(m).last() is Text),
        Q::Pat => instr(m) && parts(m).len() > 0 && parts(m).last() is Pat && parts(m).last()->kw is None && parts(m).last()->sels =~= Seq::<(usize, usize)>::empty(),
        Q::Kw | Q::Sel1(_) | Q::Sel2(_) => instr(m) && parts(m).len() > 0 && parts(m).last() is Pat && parts(m).last()->kw is Some,
        Q::Lit | Q::LitTick => instr(m) && parts(m).len() > 0 && parts(m).last() is Text,
        Q::Cmd => instr(m) && parts(m).len() > 0 && parts(m).last() is Cmd,
        Q::CmdLit | Q::CmdTick => instr(m) && parts(m).len() > 0 && parts(m).last() is Cmd && parts(m).last()->Cmd_0.len() > 0 && parts(m).last()->Cmd_0.last() is Lit,
        Q::Group => m.group,
        Q::Name => m.group && m.named.len() > 0 && m.named.last() == (Named { id: None, parts: None }),
        Q::NameSep | Q::Body => m.group && m.named.len() > 0 && m.named.last().id is Some && m.named.last().parts is None,
    }
}
pub open spec fn tree(n: Seq<NodeV>, m: M) -> bool { tree_at(n, m.main, m.group, m.named) }
// end positions of the first n tokens
pub open spec fn end_b(t: Seq<Token>, n: int) -> int { if n <= 0 { 0 } else { t[n - 1].start_byte + t[n - 1].length_bytes } }
pub open spec fn end_c(t: Seq<Token>, n: int) -> int { if n <= 0 { 0 } else { t[n - 1].start_character + t[n - 1].length_characters } }
pub open spec fn end_g(t: Seq<Token>, n: int) -> int { if n <= 0 { 0 } else { t[n - 1].start_grapheme + t[n - 1].length_graphemes } }
pub open spec fn contiguous(t: Seq<Token>) -> bool {
    &&& t.len() <= isize::MAX / 16 // they are collected in a Vec, whose bytes are at most isize::MAX
    &&& forall|n: int| 0 <= n < t.len() ==> (#[trigger] t[n]).start_byte == end_b(t, n) && t[n].start_character == end_c(t, n) && t[n].start_grapheme == end_g(t, n)
        && t[n].start_byte + t[n].length_bytes <= isize::MAX && t[n].start_character + t[n].length_characters <= isize::MAX && t[n].start_grapheme + t[n].length_graphemes <= isize::MAX
}
pub uninterp spec fn lexed(s: Seq<char>, g: Seq<char>, icu: &RefCount<IcuDataProvider>) -> Result<Seq<Token>, LexerError>;
pub open spec fn gram(t: Seq<Token>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] t[i]).token_type == TokenType::Grammar }
// what the parser makes of the tokens (T02, T03)
pub open spec fn built(l: Result<Seq<Token>, LexerError>, r: Result<Tree, TreeError>) -> bool {
    match l {
        Err(e) => r == Err::<Tree, TreeError>(TreeError::Lexer(e)),
        Ok(t) => {
            &&& r is Ok <==> accepted(tks(t))
            &&& r is Ok ==> {
                &&& r->Ok_0.tokens@ == t && t.len() <= isize::MAX / 16
                &&& run(tks(t), t.len() as int) is Some && tree(nv(r->Ok_0.nodes@), run(tks(t), t.len() as int)->Some_0)
                &&& wfn(nv(r->Ok_0.nodes@))
                &&& r->Ok_0.has_grammar == gram(t, t.len() as int)
                &&& r->Ok_0.lengths.bytes == end_b(t, t.len() as int) && r->Ok_0.lengths.characters == end_c(t, t.len() as int)
                &&& r->Ok_0.lengths.graphemes == end_g(t, t.len() as int) && r->Ok_0.lengths.tokens == t.len()
            }
        }
    }
}
