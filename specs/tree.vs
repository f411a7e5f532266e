@unit tree
@features icu_compiled_data
@include common.vs
@include map.vs
@broadcast vp_axiom_from_lexer
@axioms
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_lexer(e: LexerError, r: TreeError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<TreeError, LexerError>(e, r) ==> r == TreeError::Lexer(e),
{}
@prelude
#[verifier::external_body] pub struct LexerError { _p: u8 }
#[verifier::external_body] pub struct IcuDataProvider { _p: u8 }
@file crates/lexer/src/lexer.rs
@item TokenType PartialEq Eq Clone Copy Structural
@item Token
@file crates/localiser/src/error.rs
@item TreeError
@file crates/localiser/src/tree.rs
@item NodeType PartialEq Eq Structural
@item Node
@item Length
@item Tree
@item ParserState PartialEq Eq Clone Copy Structural
@item ParserStates
@include ast.vs
@include astlem.vs
@include grammar.vs
@include treelem.vs
@retype &mut [Node] =>> &mut Vec<Node>
@retype &mut [Token] =>> &mut Vec<Token>
@mid
impl vstd::std_specs::convert::FromSpecImpl<LexerError> for TreeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: LexerError) -> TreeError { TreeError::Lexer(e) }
}
impl From<LexerError> for TreeError { fn from(e: LexerError) -> TreeError { TreeError::Lexer(e) } }
// ---- trusted: the lexer as unit lexer proves it (L01), numbered and with a look-ahead -----------
#[verifier::external_body]
pub struct LexerIterator { _p: u8 }
#[verifier::external_body]
pub struct VpLexer { _p: u8 }
impl LexerIterator {
    pub uninterp spec fn all(&self) -> Seq<Token>;
    #[verifier::external_body]
    pub fn try_new(s: &str, g: &str, icu: &RefCount<IcuDataProvider>) -> (r: Result<LexerIterator, LexerError>)
        ensures match lexed(s@, g@, icu) { Ok(t) => r is Ok && r->Ok_0.all() == t && contiguous(t), Err(e) => r == Err::<LexerIterator, LexerError>(e) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VpLexer) ensures r.all() == self.all(), r.pos() == 0 { unimplemented!() }
}
impl VpLexer {
    pub uninterp spec fn all(&self) -> Seq<Token>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn peekable(self) -> (r: VpLexer) ensures r.all() == self.all(), r.pos() == self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, Token)>)
        ensures
            final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some((old(self).pos() as usize, old(self).all()[old(self).pos() as int])) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&(usize, Token)>)
        ensures
            self.pos() < self.all().len() ==> r is Some && *r->Some_0 == (self.pos() as usize, self.all()[self.pos() as int]),
            self.pos() >= self.all().len() ==> r is None,
    { unimplemented!() }
}
proof fn lemma_ins(n: Seq<NodeV>, p: usize, t: NodeType)
    requires wfn(n), p < n.len(), allow_c(n[p as int].typ), t != NodeType::Root, n.len() < usize::MAX,
    ensures wfn(ins(n, p, t)), ins(n, p, t).len() == n.len() + 1, n[p as int].children is Some,
{
    let m = ins(n, p, t);
    assert(node_ok(n, p as int));
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] node_ok(m, i) by {
        if i < n.len() { assert(node_ok(n, i)); }
    }
}
proof fn lemma_addtok(n: Seq<NodeV>, i: usize, k: usize)
    requires wfn(n), i < n.len(), allow_t(n[i as int].typ),
    ensures wfn(addtok(n, i, k)), n[i as int].toks is Some,
{
    let m = addtok(n, i, k);
    assert(node_ok(n, i as int));
    assert forall|j: int| 0 <= j < m.len() implies #[trigger] node_ok(m, j) by { assert(node_ok(n, j)); }
}
// the container of a node
proof fn lemma_cont(n: Seq<NodeV>, i: usize)
    requires wfn(n), i < n.len(),
    ensures cont(n, i) < n.len(), allow_c(n[cont(n, i) as int].typ), n[cont(n, i) as int].children is Some,
        !allow_c(n[i as int].typ) ==> n[i as int].parent is Some && i > 0,
        allow_t(n[i as int].typ) ==> n[i as int].toks is Some,
{ assert(node_ok(n, i as int)); assert(node_ok(n, cont(n, i) as int)); }
@file crates/localiser/src/tree.rs
@fn NodeType::allow_children
    ensures r == allow_c(*self),
@fn NodeType::allow_tokens
    ensures r == allow_t(*self),
@fn Tree::push_token
    requires
        old(lengths).bytes + token.length_bytes <= usize::MAX, old(lengths).characters + token.length_characters <= usize::MAX,
        old(lengths).graphemes + token.length_graphemes <= usize::MAX, old(lengths).tokens + 1 <= usize::MAX,
    ensures
        final(tokens)@ == old(tokens)@.push(token),
        final(lengths).bytes == old(lengths).bytes + token.length_bytes, final(lengths).characters == old(lengths).characters + token.length_characters,
        final(lengths).graphemes == old(lengths).graphemes + token.length_graphemes, final(lengths).tokens == old(lengths).tokens + 1,
@fn Tree::insert
    requires wfn(nv(old(nodes)@)), *node_index < old(nodes)@.len(), allow_c(nv(old(nodes)@)[*node_index as int].typ), node_type != NodeType::Root, old(nodes)@.len() < usize::MAX,
    ensures nv(final(nodes)@) =~= ins(nv(old(nodes)@), *node_index, node_type), r == old(nodes)@.len(), wfn(nv(final(nodes)@)),
@entry
    proof {
        let o = ins(nv(nodes@), *node_index, node_type);
        lemma_ins(nv(nodes@), *node_index, node_type);
        assert forall|s: Seq<Node>| (#[trigger] nv(s)) =~= o implies nv(s) == o by {}
    }
@fn Tree::move_to_container
    requires old(parser).current is Some, old(parser).current->Some_0 < old(nodes)@.len(), wfn(nv(old(nodes)@)),
    ensures final(nodes)@ == old(nodes)@, final(parser).current == Some(cont(nv(old(nodes)@), old(parser).current->Some_0)),
        final(parser).state == old(parser).state, final(parser).nested_states == old(parser).nested_states,
@entry
    proof { lemma_cont(nv(nodes@), parser.current->Some_0); }
@fn Tree::create_node
    requires old(parser).current is Some, old(parser).current->Some_0 < old(nodes)@.len(), wfn(nv(old(nodes)@)), node_type != NodeType::Root, old(nodes)@.len() < usize::MAX,
    ensures nv(final(nodes)@) == ins(nv(old(nodes)@), cont(nv(old(nodes)@), old(parser).current->Some_0), node_type), wfn(nv(final(nodes)@)),
        final(parser).current == Some(old(nodes)@.len() as usize),
        final(parser).state == old(parser).state, final(parser).nested_states == old(parser).nested_states,
@entry
    proof { lemma_cont(nv(nodes@), parser.current->Some_0); }
@fn Tree::create_node_add_token
    requires old(parser).current is Some, old(parser).current->Some_0 < old(nodes)@.len(), wfn(nv(old(nodes)@)), allow_t(node_type), old(nodes)@.len() < usize::MAX,
    ensures nv(final(nodes)@) =~= ins_tok(nv(old(nodes)@), cont(nv(old(nodes)@), old(parser).current->Some_0), node_type, *token), wfn(nv(final(nodes)@)),
        final(parser).current == Some(old(nodes)@.len() as usize),
        final(parser).state == old(parser).state, final(parser).nested_states == old(parser).nested_states,
@entry
    proof {
        let n = nv(nodes@);
        let c = cont(n, parser.current->Some_0);
        lemma_cont(n, parser.current->Some_0);
        lemma_ins(n, c, node_type);
        lemma_addtok(ins(n, c, node_type), nodes@.len() as usize, *token);
        assert forall|s: Seq<Node>| (#[trigger] nv(s)) =~= ins_tok(n, c, node_type, *token) implies nv(s) == ins_tok(n, c, node_type, *token) by {}
    }
@fn Tree::add_token
    requires old(parser).current is Some, old(parser).current->Some_0 < old(nodes)@.len(), wfn(nv(old(nodes)@)), allow_t(node_type), old(nodes)@.len() < usize::MAX,
    ensures nv(final(nodes)@) =~= op_text(nv(old(nodes)@), old(parser).current->Some_0, node_type, *token).0, wfn(nv(final(nodes)@)),
        final(parser).current == Some(op_text(nv(old(nodes)@), old(parser).current->Some_0, node_type, *token).1),
        final(parser).state == old(parser).state, final(parser).nested_states == old(parser).nested_states,
@entry
    let ghost n0 = nv(nodes@);
    let ghost c0 = parser.current->Some_0;
    proof {
        lemma_cont(n0, c0);
        if n0[c0 as int].typ == node_type { lemma_addtok(n0, c0, *token); }
        assert forall|s: Seq<Node>| (#[trigger] nv(s)) =~= n0 implies nv(s) == n0 by {}
        assert forall|s: Seq<Node>| (#[trigger] nv(s)) =~= op_text(n0, c0, node_type, *token).0 implies nv(s) == op_text(n0, c0, node_type, *token).0 by {}
    }
@fn Tree::end_nested_state
    requires old(parser).current is Some, old(parser).current->Some_0 < old(nodes)@.len(),
    ensures final(nodes)@ == old(nodes)@, final(parser).current == nv(old(nodes)@)[old(parser).current->Some_0 as int].parent,
        final(parser).state == if old(parser).nested_states@.len() > 0 { old(parser).nested_states@.last() } else { ParserState::String },
        final(parser).nested_states@ == if old(parser).nested_states@.len() > 0 { old(parser).nested_states@.drop_last() } else { old(parser).nested_states@ },
@fn Tree::pattern_start
    requires
        old(parser).current is Some, old(parser).current->Some_0 < old(nodes)@.len(), wfn(nv(old(nodes)@)), old(nodes)@.len() < usize::MAX - 2, *token < old(tokens)@.len(),
    ensures
        final(tokens)@ == old(tokens)@,
        ({
            let n = nv(old(nodes)@);
            let o = nv(final(nodes)@);
            let l = n.len() as usize;
            let c = cont(n, old(parser).current->Some_0);
            let k = Tk { t: old(tokens)@[*token as int].token_type, s: old(tokens)@[*token as int].string@ };
            let ns = old(parser).nested_states@;
            let st = old(parser).state;
            if k.t == TokenType::Identifier && !old(patterns)@.contains_key(VpK::S(k.s)) {
                &&& r is Ok && o == ins_tok(ins(n, c, NodeType::Pattern), l, NodeType::Identifier, *token) && final(parser).current == Some(l)
                &&& final(parser).state == ParserState::Pattern && final(parser).nested_states@ == ns.push(st)
                &&& final(patterns)@.dom() =~= old(patterns)@.dom().insert(VpK::S(k.s))
            } else if is_g(k, "`"@) {
                &&& r is Ok && o == ins(n, c, NodeType::Text) && final(parser).current == Some(l)
                &&& final(parser).state == ParserState::LiteralText && final(parser).nested_states@ == ns.push(st).push(ParserState::Literal)
                &&& final(patterns)@ == old(patterns)@
            } else if is_g(k, "#"@) {
                &&& r is Ok && o == ins(n, c, NodeType::Command) && final(parser).current == Some(l)
                &&& final(parser).state == ParserState::Command && final(parser).nested_states@ == ns.push(st)
                &&& final(patterns)@ == old(patterns)@
            } else { r is Err }
        }),
        r is Ok ==> wfn(nv(final(nodes)@)),
@entry
    proof { lemma_cont(nv(nodes@), parser.current->Some_0); }
@mid
proof fn lemma_signs()
    ensures "#"@ != "`"@, "#"@ != "{"@, "#"@ != "}"@, "`"@ != "{"@, "`"@ != "}"@, "{"@ != "}"@,
{
    reveal_strlit("#"); reveal_strlit("`"); reveal_strlit("{"); reveal_strlit("}");
    assert("#"@[0] == '#' && "`"@[0] == '`' && "{"@[0] == '{' && "}"@[0] == '}');
}
proof fn lemma_ext(n: Seq<NodeV>)
    ensures forall|s: Seq<Node>| (#[trigger] nv(s)) =~= n ==> nv(s) == n,
{}
@file crates/localiser/src/tree.rs
@fn Tree::try_new
@split
@spec
    ensures
        built(lexed(string@, grammar@, icu_data_provider), r), // [T02] [T03]
@entry
    let ghost ts = tks(lexed(string@, grammar@, icu_data_provider)->Ok_0);
    proof {
        let n0 = seq![NodeV { typ: NodeType::Root, parent: None, children: Some(Seq::empty()), toks: None }];
        lemma_ext(n0);
        lemma_ext(ins(n0, 0, NodeType::String));
        assert forall|k: int| 0 <= k < n0.len() implies node_ok(n0, k) by {}
        if ts.len() <= isize::MAX { lemma_init(ts, ins(n0, 0, NodeType::String)); }
    }
@loop 0
    invariant
        lexed(string@, grammar@, icu_data_provider) == Ok::<Seq<Token>, LexerError>(lexer.all()), contiguous(lexer.all()),
        lexer.pos() <= lexer.all().len(),
        inv(tks(lexer.all()), lexer.pos() as int, nv(nodes@), parser.current, parser.state, parser.nested_states@, named_strings@.dom(), patterns@.dom()), // [T02] [T03]
        wfn(nv(nodes@)), tokens@ == lexer.all().take(lexer.pos() as int), // [T03]
        has_grammar == gram(lexer.all(), lexer.pos() as int), parser.state != ParserState::String ==> has_grammar, // [T03]
        lengths.bytes == end_b(lexer.all(), lexer.pos() as int), lengths.characters == end_c(lexer.all(), lexer.pos() as int), // [T03]
        lengths.graphemes == end_g(lexer.all(), lexer.pos() as int), lengths.tokens == lexer.pos(), // [T03]
    ensures lexer.pos() == lexer.all().len(),
    decreases lexer.all().len() - lexer.pos(),
@head 0
    proof {
        let ts = tks(lexer.all());
        let p = lexer.pos() - 1;
        let n = nv(nodes@);
        let st = parser.state;
        let ns = parser.nested_states@;
        let nm = named_strings@.dom();
        let pt = patterns@.dom();
        lemma_bound(ts, p, n, parser.current, st, ns, nm, pt);
        let cur = parser.current->Some_0;
        match st {
            ParserState::String | ParserState::SubString => lemma_base(ts, p, n, cur, st, ns, nm, pt),
            ParserState::Pattern => lemma_pat(ts, p, n, cur, ns, nm, pt),
            ParserState::Keyword => lemma_kw(ts, p, n, cur, ns, nm, pt),
            ParserState::LiteralText => lemma_lit(ts, p, n, cur, ns, nm, pt),
            ParserState::Literal => lemma_literal(ts, p, n, cur, ns, nm, pt),
            ParserState::Command => lemma_cmd(ts, p, n, cur, ns, nm, pt),
            ParserState::NamedGroup => lemma_group(ts, p, n, cur, ns, nm, pt),
            ParserState::NamedString => lemma_name(ts, p, n, cur, ns, nm, pt),
        }
        assert(ts[p].t == token.token_type && ts[p].s == token.string@);
        lemma_signs();
    }
@after 0
    proof { assert(tokens@ =~= lexer.all()); lemma_end(tks(lexer.all()), nv(nodes@), parser.current, parser.state, parser.nested_states@, named_strings@.dom(), patterns@.dom()); }
@include treeacc.vs
