@unit pattern
@features icu_compiled_data
@include common.vs
@include map.vs
@include types.vs
@include fmt_types.vs
@include fmt_errors.vs
@include fmtwf.vs
@desugar-for
@header
pub mod options { pub use super::GroupingStrategy; }
@prelude
#[verifier::external_body] pub struct IcuDataProvider { _p: u8 }
@file crates/lexer/src/lexer.rs
@item TokenType PartialEq Eq Clone Copy Structural
@item Token
@file crates/localiser/src/tree.rs
@item Node
@item Length
@item Tree
@file crates/localiser/src/formatter.rs
@item OptionSelectors
@include ast.vs
@include astlem.vs
@mid
// ---- contract of unit tree -----------------------------------------------------------------------
impl Tree {
    #[verifier::external_body]
    pub fn vp_try_new(string: &str, grammar: &str, icu_data_provider: &RefCount<IcuDataProvider>) -> (r: Result<Tree, TreeError>)
        ensures built(lexed(string@, grammar@, icu_data_provider), r),
    { unimplemented!() }
    pub fn try_new(string: &str, grammar: &str, icu_data_provider: &RefCount<IcuDataProvider>) -> (r: Result<Tree, TreeError>)
        ensures built(lexed(string@, grammar@, icu_data_provider), r), r is Ok ==> parsed(r->Ok_0) && shaped(r->Ok_0),
    {
        let r = Tree::vp_try_new(string, grammar, icu_data_provider);
        proof { if r is Ok { lemma_parsed(r->Ok_0); } }
        r
    }
}
@provided Tree::try_new
@include treeacc.vs
@mid
// ---- contracts of units registry, localiser and command -------------------------------------------
#[verifier::external_body] pub struct LanguageTagRegistry { _p: u8 }
pub uninterp spec fn icu_of(r: LanguageTagRegistry, t: RefCount<LanguageTag>) -> RefCount<IcuLanguage>;
impl LanguageTagRegistry {
    #[verifier::external_body]
    pub fn icu_language(&self, t: &RefCount<LanguageTag>) -> (r: RefCount<IcuLanguage>) ensures r == icu_of(*self, *t) { unimplemented!() }
}
pub struct Localiser { pub language_registry: RefCount<LanguageTagRegistry>, pub command_registry: RefCount<CommandRegistry>, pub icu_data_provider: RefCount<IcuDataProvider>, pub grammar: String }
impl Localiser {
    pub fn language_tag_registry(&self) -> (r: &RefCount<LanguageTagRegistry>) ensures *r == self.language_registry { &self.language_registry }
    pub fn command_registry(&self) -> (r: &RefCount<CommandRegistry>) ensures *r == self.command_registry { &self.command_registry }
    pub fn icu_data_provider(&self) -> (r: &RefCount<IcuDataProvider>) ensures *r == self.icu_data_provider { &self.icu_data_provider }
    pub fn grammar(&self) -> (r: &str) ensures r@ == self.grammar@ { self.grammar.as_str() }
}
// ---- trusted: iteration over a map, every entry once ------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct VpPairs<'a, K, V> { _k: &'a Vec<K>, _v: &'a Vec<V> }
impl<'a, K: VpKey, V> VpPairs<'a, K, V> {
    pub uninterp spec fn of(&self) -> Seq<VpK>;
    pub uninterp spec fn map(&self) -> Map<VpK, V>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures
            final(self).of() == old(self).of(), final(self).map() == old(self).map(),
            old(self).pos() < old(self).of().len() ==> r is Some && r->Some_0.0.kv() == old(self).of()[old(self).pos() as int]
                && *r->Some_0.1 == old(self).map()[old(self).of()[old(self).pos() as int]] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
impl<K: VpKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vp_iter<'a>(&'a self) -> (r: VpPairs<'a, K, V>)
        ensures r.of() == self.order(), r.map() == self@, r.pos() == 0, self.order().no_duplicates(), self.order().to_set() == self@.dom(),
    { unimplemented!() }
}
pub fn vp_into_iter<I>(i: I) -> (r: I) ensures r == i { i }
// ---- trusted: std texts ------------------------------------------------------------------------------
pub open spec fn among(v: Seq<&str>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == s }
#[verifier::external_body]
pub fn vp_has(v: &Vec<&str>, s: &str) -> (r: bool) ensures r == among(v@, s@) { unimplemented!() }
// b is the byte position of a character, or the end
pub uninterp spec fn at_char(s: Seq<char>, b: int) -> bool;
impl IcuLanguage {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_find(s: &String, p: &str) -> (r: Option<usize>) ensures r is Some ==> at_char(s@, r->Some_0 as int) { unimplemented!() }
#[verifier::external_body]
pub fn vp_get_from(s: &String, a: usize) -> (r: Option<&str>) ensures at_char(s@, a as int) ==> r is Some { unimplemented!() }
#[verifier::external_body]
pub fn vp_get_incl(s: &String, a: usize, b: usize) -> (r: Option<&str>) ensures at_char(s@, a as int) && at_char(s@, b + 1) && a <= b ==> r is Some { unimplemented!() }
#[verifier::external_body]
pub fn vp_replace(s: &String, a: &str, b: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vp_parse_locale(s: &String) -> (r: Result<IcuLanguage, IcuParserError>) { unimplemented!() }
// the hyphens of a text in order (a hyphen is one byte)
#[verifier::external_body]
pub struct VpHyphens<'a> { _p: &'a str }
impl<'a> VpHyphens<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn last(&self) -> int;
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a str)>)
        ensures
            final(self).text() == old(self).text(),
            r is Some ==> r->Some_0.0 > old(self).last() && final(self).last() == r->Some_0.0 && final(self).left() < old(self).left()
                && at_char(old(self).text(), r->Some_0.0 as int) && at_char(old(self).text(), r->Some_0.0 + 1),
            r is None ==> final(self).left() == old(self).left() && final(self).last() == old(self).last(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_hyphens<'a>(s: &'a String, c: char) -> (r: VpHyphens<'a>) ensures r.text() == s@ { unimplemented!() }
@rewrite $x.contains(&$y) =>> vp_has(&$x, $y)
@rewrite $x.find($y) =>> vp_find(&$x, $y)
@rewrite $x.match_indices($y) =>> vp_hyphens(&$x, $y)
@rewrite $x.get($a..) =>> vp_get_from(&$x, $a)
@rewrite $x.get($a..=$b) =>> vp_get_incl(&$x, $a, $b)
@rewrite $x.replace($a, $b) =>> vp_replace(&$x, $a, $b)
@rewrite locale_string.parse() =>> vp_parse_locale(&locale_string)
@rewrite $x.iter() =>> $x.vp_iter()
@mid
// ---- specification: what a part of a pattern string stands for -------------------------------------
// the text of tokens
pub open spec fn tx(tk: Seq<Tk>, t: Seq<usize>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { tx(tk, t, n - 1) + tk[t[n - 1] as int].s } }
pub open spec fn text(tk: Seq<Tk>, t: Seq<usize>) -> Seq<char> { tx(tk, t, t.len() as int) }
// options and selectors: the last one of a name counts
pub open spec fn map_n(tk: Seq<Tk>, sels: Seq<(usize, usize)>, n: int) -> Map<VpK, Seq<char>>
    decreases n,
{ if n <= 0 { Map::empty() } else { map_n(tk, sels, n - 1).insert(VpK::S(tk[sels[n - 1].0 as int].s), tk[sels[n - 1].1 as int].s) } }
pub open spec fn map_of(tk: Seq<Tk>, sels: Seq<(usize, usize)>) -> Map<VpK, Seq<char>> { map_n(tk, sels, sels.len() as int) }
pub open spec fn vm(m: Map<VpK, String>) -> Map<VpK, Seq<char>> { m.map_values(|s: String| s@) }
pub open spec fn sign_of(s: Seq<char>) -> Option<SignDisplay> {
    if s == "auto"@ { Some(SignDisplay::Auto) } else if s == "never"@ { Some(SignDisplay::Never) } else if s == "always"@ { Some(SignDisplay::Always) }
    else if s == "except_zero"@ { Some(SignDisplay::ExceptZero) } else if s == "negative"@ { Some(SignDisplay::Negative) } else { None }
}
pub open spec fn group_of(s: Seq<char>) -> Option<GroupingStrategy> {
    if s == "auto"@ { Some(GroupingStrategy::Auto) } else if s == "never"@ { Some(GroupingStrategy::Never) } else if s == "always"@ { Some(GroupingStrategy::Always) }
    else if s == "min2"@ { Some(GroupingStrategy::Min2) } else { None }
}
pub open spec fn date_of(s: Seq<char>) -> Option<DateLength> {
    if s == "full"@ { Some(DateLength::Full) } else if s == "long"@ { Some(DateLength::Long) } else if s == "medium"@ { Some(DateLength::Medium) }
    else if s == "short"@ { Some(DateLength::Short) } else { None }
}
pub open spec fn time_of(s: Seq<char>) -> Option<TimeLength> {
    if s == "full"@ { Some(TimeLength::Full) } else if s == "long"@ { Some(TimeLength::Long) } else if s == "medium"@ { Some(TimeLength::Medium) }
    else if s == "short"@ { Some(TimeLength::Short) } else { None }
}
pub open spec fn given<T>(m: Map<VpK, Seq<char>>, k: Seq<char>, f: spec_fn(Seq<char>) -> Option<T>) -> Option<T> {
    if m.contains_key(VpK::S(k)) { f(m[VpK::S(k)]) } else { None }
}
@file crates/localiser/src/formatter.rs
@fn sign_display
    ensures r is Err ==> !(r->Err_0 is NoGrammar), match sign_of(sign@) { Some(x) => r == Ok::<SignDisplay, FormatterError>(x), None => r is Err }, // [F01]
@fn decimal_grouping_display
    ensures r is Err ==> !(r->Err_0 is NoGrammar), match group_of(group@) { Some(x) => r == Ok::<GroupingStrategy, FormatterError>(x), None => r is Err }, // [F01]
@fn date_length
    ensures r is Err ==> !(r->Err_0 is NoGrammar), match date_of(len@) { Some(x) => r == Ok::<DateLength, FormatterError>(x), None => r is Err }, // [F01]
@fn time_length
    ensures r is Err ==> !(r->Err_0 is NoGrammar), match time_of(len@) { Some(x) => r == Ok::<TimeLength, FormatterError>(x), None => r is Err }, // [F01]
@mid
// ---- patterns by their nodes --------------------------------------------------------------------------
pub open spec fn leaf_tok(n: Seq<NodeV>, j: usize) -> usize { n[j as int].toks->Some_0[0] }
pub open spec fn id_leaf(n: Seq<NodeV>, j: usize, nt: int) -> bool {
    j < n.len() && n[j as int].typ == NodeType::Identifier && n[j as int].toks is Some && n[j as int].toks->Some_0.len() == 1 && leaf_tok(n, j) < nt
}
pub open spec fn sel_shape(n: Seq<NodeV>, j: usize, nt: int) -> bool {
    &&& j < n.len() && n[j as int].typ == NodeType::Selector && n[j as int].children is Some && kids(n, j).len() == 2
    &&& id_leaf(n, kids(n, j)[0], nt) && id_leaf(n, kids(n, j)[1], nt)
}
pub open spec fn pat_shape(n: Seq<NodeV>, i: usize, nt: int) -> bool {
    let c = kids(n, i);
    &&& i < n.len() && n[i as int].children is Some && c.len() > 0
    &&& id_leaf(n, c[0], nt)
    &&& c.len() > 1 ==> id_leaf(n, c[1], nt)
    &&& forall|k: int| 2 <= k < c.len() ==> sel_shape(n, #[trigger] c[k], nt)
}
pub open spec fn sel_of(n: Seq<NodeV>, j: usize) -> (usize, usize) { (leaf_tok(n, kids(n, j)[0]), leaf_tok(n, kids(n, j)[1])) }
pub open spec fn pat_id(n: Seq<NodeV>, i: usize) -> usize { leaf_tok(n, kids(n, i)[0]) }
pub open spec fn pat_kw(n: Seq<NodeV>, i: usize) -> Option<usize> { if kids(n, i).len() > 1 { Some(leaf_tok(n, kids(n, i)[1])) } else { None } }
pub open spec fn pat_sels(n: Seq<NodeV>, i: usize) -> Seq<(usize, usize)> {
    Seq::new(if kids(n, i).len() > 2 { (kids(n, i).len() - 2) as nat } else { 0 }, |k: int| sel_of(n, kids(n, i)[k + 2]))
}
proof fn lemma_sel_lim(p: Part, nt: int, j: int)
    requires lim(p, nt), p is Pat, 0 <= j < p->sels.len(),
    ensures p->sels[j].0 < nt, p->sels[j].1 < nt,
{}
proof fn lemma_pat_shape(n: Seq<NodeV>, i: usize, id: usize, kw: Option<usize>, sels: Seq<(usize, usize)>, hi: int, nt: int)
    requires pat_at(n, i, id, kw, sels, hi), lim(Part::Pat { id, kw, sels }, nt), i < n.len(),
    ensures pat_shape(n, i, nt), pat_id(n, i) == id, pat_kw(n, i) == kw, pat_sels(n, i) == sels,
{
    reveal(pat_at);
    let c = kids(n, i);
    assert forall|k: int| 2 <= k < c.len() implies sel_shape(n, #[trigger] c[k], nt) by {
        let j = k - 2;
        assert(sel_at(n, c[j + 2], sels[j], i, i as int, hi));
        lemma_sel_lim(Part::Pat { id, kw, sels }, nt, j);
    }
    assert forall|j: int| 0 <= j < sels.len() implies pat_sels(n, i)[j] == #[trigger] sels[j] by {
        assert(sel_at(n, c[j + 2], sels[j], i, i as int, hi));
    }
    assert(pat_sels(n, i) =~= sels);
}
proof fn lemma_map_push(tk: Seq<Tk>, sels: Seq<(usize, usize)>, n: int, m: Map<VpK, String>)
    requires 0 <= n, vm(m) =~= map_n(tk, sels, n),
    ensures forall|k: VpK, s: String| k == VpK::S(tk[sels[n].0 as int].s) && s@ == tk[sels[n].1 as int].s ==> vm(#[trigger] m.insert(k, s)) =~= map_n(tk, sels, n + 1),
{}
@file crates/localiser/src/formatter.rs
@fn pattern_selectors
    requires pat_shape(nv(tree.nodes@), *index, tree.tokens@.len() as int),
    ensures r is Err ==> !(r->Err_0 is NoGrammar), r is Ok, vm(r->Ok_0@) == map_of(tks(tree.tokens@), pat_sels(nv(tree.nodes@), *index)), // [F01]
@loop 0
    invariant
        pat_shape(nv(tree.nodes@), *index, tree.tokens@.len() as int), vp_it0.of() == kids(nv(tree.nodes@), *index), vp_it0.pos() <= vp_it0.of().len(),
        vp_it0.of().len() >= 2 ==> vp_it0.pos() >= 2, vp_it0.of().len() < 2 ==> vp_it0.pos() == vp_it0.of().len(),
        vm(pairs@) =~= map_n(tks(tree.tokens@), pat_sels(nv(tree.nodes@), *index), vp_it0.pos() - 2), // [F01]
    ensures vp_it0.pos() == vp_it0.of().len(),
    decreases vp_it0.of().len() - vp_it0.pos(),
@head 0
    proof {
        let k = vp_it0.pos() - 1;
        assert(sel_shape(nv(tree.nodes@), kids(nv(tree.nodes@), *index)[k], tree.tokens@.len() as int));
        lemma_map_push(tks(tree.tokens@), pat_sels(nv(tree.nodes@), *index), k - 2, pairs@);
    }
@fn part_text
    requires *index < tree.nodes@.len(), nv(tree.nodes@)[*index as int].toks is Some, lim_toks(nv(tree.nodes@)[*index as int].toks->Some_0, tree.tokens@.len() as int),
    ensures r is Err ==> !(r->Err_0 is NoGrammar),
        r is Ok, final(pattern)@ == old(pattern)@.push(final(pattern)@.last()), final(pattern)@.last() is Text,
        final(pattern)@.last()->Text_0@ == text(tks(tree.tokens@), nv(tree.nodes@)[*index as int].toks->Some_0), // [T03]
@loop 0
    invariant
        vp_it0.of() == nv(tree.nodes@)[*index as int].toks->Some_0, vp_it0.pos() <= vp_it0.of().len(), lim_toks(vp_it0.of(), tree.tokens@.len() as int),
        string@ == tx(tks(tree.tokens@), vp_it0.of(), vp_it0.pos() as int), // [T03]
    ensures vp_it0.pos() == vp_it0.of().len(),
    decreases vp_it0.of().len() - vp_it0.pos(),
@mid
// ---- commands (C03) -----------------------------------------------------------------------------------
pub open spec fn ci_of(n: Seq<NodeV>, j: usize) -> CI {
    if n[j as int].typ == NodeType::Identifier { CI::Id(leaf_tok(n, j)) } else if n[j as int].typ == NodeType::NumberSign { CI::Sign(leaf_tok(n, j)) } else { CI::Lit(n[j as int].toks->Some_0) }
}
pub open spec fn item_shape(n: Seq<NodeV>, j: usize, nt: int) -> bool {
    &&& j < n.len() && n[j as int].toks is Some && lim_toks(n[j as int].toks->Some_0, nt)
    &&& n[j as int].typ == NodeType::Identifier || n[j as int].typ == NodeType::NumberSign || n[j as int].typ == NodeType::Text
    &&& n[j as int].typ != NodeType::Text ==> n[j as int].toks->Some_0.len() == 1
}
pub open spec fn cmd_shape(n: Seq<NodeV>, i: usize, nt: int) -> bool {
    &&& i < n.len() && n[i as int].children is Some
    &&& forall|k: int| 0 <= k < kids(n, i).len() ==> item_shape(n, #[trigger] kids(n, i)[k], nt)
}
pub open spec fn cmd_items(n: Seq<NodeV>, i: usize) -> Seq<CI> { Seq::new(kids(n, i).len(), |k: int| ci_of(n, kids(n, i)[k])) }
proof fn lemma_item_lim(p: Part, nt: int, j: int)
    requires lim(p, nt), p is Cmd, 0 <= j < p->Cmd_0.len(),
    ensures lim_ci(p->Cmd_0[j], nt),
{}
proof fn lemma_cmd_shape(n: Seq<NodeV>, i: usize, items: Seq<CI>, hi: int, nt: int)
    requires cmd_at(n, i, items, hi), lim(Part::Cmd(items), nt), i < n.len(),
    ensures cmd_shape(n, i, nt), cmd_items(n, i) == items,
{
    reveal(cmd_at);
    let c = kids(n, i);
    assert forall|k: int| 0 <= k < c.len() implies item_shape(n, #[trigger] c[k], nt) && ci_of(n, c[k]) == items[k] by {
        assert(ci_at(n, c[k], items[k], i, i as int, hi));
        lemma_item_lim(Part::Cmd(items), nt, k);
    }
    assert(cmd_items(n, i) =~= items);
}
pub open spec fn item_text(tk: Seq<Tk>, c: CI) -> Seq<char> {
    match c { CI::Id(t) => tk[t as int].s, CI::Lit(ts) => text(tk, ts), CI::Sign(t) => tk[t as int].s }
}
// the name and the parameters, without the delay marker
#[verifier::opaque]
pub open spec fn cmd_texts(tk: Seq<Tk>, items: Seq<CI>, n: int) -> Seq<PV>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if items[n - 1] is Sign { cmd_texts(tk, items, n - 1) } else { cmd_texts(tk, items, n - 1).push(PV::Text(item_text(tk, items[n - 1]))) }
}
pub open spec fn delayed(items: Seq<CI>) -> bool { items.len() > 1 && items[1] is Sign }
pub open spec fn cmd_form(items: Seq<CI>) -> bool {
    &&& items.len() > 0 && items[0] is Id
    &&& forall|k: int| 0 <= k < items.len() && (#[trigger] items[k]) is Sign ==> k == 1
}
pub open spec fn cmd_run(tk: Seq<Tk>, items: Seq<CI>, reg: CommandRegistry) -> Result<Seq<char>, EV> {
    run_command(reg, item_text(tk, items[0]), cmd_texts(tk, items, items.len() as int))
}
pub open spec fn valid_cmd(tk: Seq<Tk>, items: Seq<CI>, reg: CommandRegistry) -> bool { cmd_form(items) && (!delayed(items) ==> cmd_run(tk, items, reg) is Ok) }
pub open spec fn all_strings(s: Seq<PlaceholderValue>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is String }
pub open spec fn cmd_is(tk: Seq<Tk>, v: PatternPart, items: Seq<CI>, reg: CommandRegistry) -> bool {
    if delayed(items) { v is Command && pvseq(v->strings@) == cmd_texts(tk, items, items.len() as int) && all_strings(v->strings@) && v->strings@.len() >= 1 }
    else { v is Text && cmd_run(tk, items, reg) == Ok::<Seq<char>, EV>(v->Text_0@) }
}
proof fn lemma_pv_push(s: Seq<PlaceholderValue>)
    ensures forall|x: PlaceholderValue| #[trigger] pvseq(s.push(x)) == pvseq(s).push(pv(x)), pvseq(Seq::<PlaceholderValue>::empty()) == Seq::<PV>::empty(),
{
    reveal(pvseq);
    assert forall|x: PlaceholderValue| #[trigger] pvseq(s.push(x)) == pvseq(s).push(pv(x)) by { assert(pvseq(s.push(x)) =~= pvseq(s).push(pv(x))); }
    assert(pvseq(Seq::<PlaceholderValue>::empty()) =~= Seq::<PV>::empty());
}
@file crates/localiser/src/formatter.rs
@fn part_command
    requires cmd_shape(nv(tree.nodes@), *index, tree.tokens@.len() as int),
    ensures r is Err ==> !(r->Err_0 is NoGrammar),
        r is Ok <==> valid_cmd(tks(tree.tokens@), cmd_items(nv(tree.nodes@), *index), **command_registry), // [C03] [F01]
        r is Ok ==> final(pattern)@ == old(pattern)@.push(final(pattern)@.last()) && cmd_is(tks(tree.tokens@), final(pattern)@.last(), cmd_items(nv(tree.nodes@), *index), **command_registry), // [C03]
@entry
    let ghost tk = tks(tree.tokens@);
    let ghost n = nv(tree.nodes@);
    let ghost items = cmd_items(n, *index);
    proof {
        reveal_with_fuel(cmd_texts, 3);
        lemma_pv_push(Seq::empty());
        if kids(n, *index).len() > 0 { let c0 = kids(n, *index)[0]; assert(item_shape(n, c0, tree.tokens@.len() as int)); }
        if kids(n, *index).len() > 1 { let c1 = kids(n, *index)[1]; assert(item_shape(n, c1, tree.tokens@.len() as int)); assert(items[1] == ci_of(n, c1)); }
    }
@loop 0
    invariant
        tk == tks(tree.tokens@), n == nv(tree.nodes@), items == cmd_items(n, *index), cmd_shape(n, *index, tree.tokens@.len() as int),
        vp_it0.of() == kids(n, *index), 1 <= vp_it0.pos() <= vp_it0.of().len(), delay ==> vp_it0.pos() >= 2, delay == delayed(items), items[0] is Id,
        all_strings(parameters@), parameters@.len() >= 1,
        forall|k: int| 0 <= k < vp_it0.pos() && (#[trigger] items[k]) is Sign ==> k == 1, // [C03]
        pvseq(parameters@) == cmd_texts(tk, items, vp_it0.pos() as int), // [C03]
    ensures vp_it0.pos() == vp_it0.of().len(),
    decreases vp_it0.of().len() - vp_it0.pos(),
@head 0
    proof {
        let k = vp_it0.pos() - 1;
        assert(item_shape(n, kids(n, *index)[k], tree.tokens@.len() as int));
        assert(items[k] == ci_of(n, kids(n, *index)[k]));
        reveal_with_fuel(cmd_texts, 2);
        lemma_pv_push(parameters@);
    }
@loop 1
    invariant
        vp_it1.of() == n[*parameter as int].toks->Some_0, vp_it1.pos() <= vp_it1.of().len(), lim_toks(vp_it1.of(), tree.tokens@.len() as int), tk == tks(tree.tokens@),
        string@ == tx(tk, vp_it1.of(), vp_it1.pos() as int), // [C03] [T03]
    ensures vp_it1.pos() == vp_it1.of().len(),
    decreases vp_it1.of().len() - vp_it1.pos(),
@mid
// ---- patterns with a keyword (F01) ----------------------------------------------------------------------
pub open spec fn is_plural(s: Seq<char>) -> bool { s == "zero"@ || s == "one"@ || s == "two"@ || s == "few"@ || s == "many"@ || s == "other"@ }
pub open spec fn is_calendar(s: Seq<char>) -> bool {
    s == "gregorian"@ || s == "buddhist"@ || s == "japanese"@ || s == "ethiopian"@ || s == "indian"@ || s == "coptic"@ || s == "iso"@
}
pub open spec fn opts_ok(o: OptionSelectors) -> bool {
    &&& forall|s: Seq<char>| #[trigger] among(o.valid_plurals@, s) <==> is_plural(s)
    &&& forall|s: Seq<char>| #[trigger] among(o.calendars@, s) <==> is_calendar(s)
}
pub open spec fn ok_decimal(k: VpK, v: Seq<char>) -> bool { k == VpK::S("sign"@) && sign_of(v) is Some || k == VpK::S("group"@) && group_of(v) is Some }
pub open spec fn ok_time(k: VpK, v: Seq<char>) -> bool {
    k == VpK::S("date"@) && date_of(v) is Some || k == VpK::S("time"@) && time_of(v) is Some || k == VpK::S("calendar"@) && is_calendar(v)
}
pub open spec fn ok_plural(k: VpK, v: Seq<char>, names: Set<VpK>) -> bool { k is S && is_plural(k->S_0) && names.contains(VpK::S(v)) }
pub open spec fn ok_select(v: Seq<char>, names: Set<VpK>) -> bool { names.contains(VpK::S(v)) }
pub open spec fn ok_keyed(w: Seq<char>, k: VpK, v: Seq<char>, names: Set<VpK>) -> bool {
    if w == "decimal"@ { ok_decimal(k, v) }
    else if w == "date_time"@ { ok_time(k, v) }
    else if w == "ordinal"@ || w == "plural"@ { ok_plural(k, v, names) }
    else { w == "select"@ && ok_select(v, names) }
}
pub open spec fn keyword(w: Seq<char>) -> bool { w == "decimal"@ || w == "date_time"@ || w == "ordinal"@ || w == "plural"@ || w == "select"@ }
#[verifier::opaque]
pub open spec fn all_keyed(w: Seq<char>, m: Map<VpK, Seq<char>>, names: Set<VpK>) -> bool { forall|k: VpK| #[trigger] m.contains_key(k) ==> ok_keyed(w, k, m[k], names) }
pub open spec fn valid_pat(tk: Seq<Tk>, kw: Option<usize>, sels: Seq<(usize, usize)>, names: Set<VpK>) -> bool {
    kw is Some ==> {
        let w = tk[kw->Some_0 as int].s;
        let m = map_of(tk, sels);
        keyword(w) && all_keyed(w, m, names) && (w == "ordinal"@ || w == "plural"@ ==> m.contains_key(VpK::S("other"@)))
    }
}
// whether ICU accepts the calendar for the language is not decided here
pub open spec fn has_calendar(tk: Seq<Tk>, kw: Option<usize>, sels: Seq<(usize, usize)>) -> bool {
    kw is Some && tk[kw->Some_0 as int].s == "date_time"@ && map_of(tk, sels).contains_key(VpK::S("calendar"@))
}
pub open spec fn complex_of(w: Seq<char>) -> ComplexType { if w == "ordinal"@ { ComplexType::Ordinal } else if w == "plural"@ { ComplexType::Plural } else { ComplexType::Select } }
pub open spec fn pat_is(tk: Seq<Tk>, v: PatternPart, id: usize, kw: Option<usize>, sels: Seq<(usize, usize)>, all: Seq<HashMap<String, String>>) -> bool {
    let m = map_of(tk, sels);
    let w = tk[kw->Some_0 as int].s;
    match v {
        PatternPart::PatternString(p) => kw is None && p@ == tk[id as int].s,
        PatternPart::PatternDecimal { placeholder, sign, group } => kw is Some && w == "decimal"@ && placeholder@ == tk[id as int].s
            && sign == given(m, "sign"@, |s: Seq<char>| sign_of(s)) && group == given(m, "group"@, |s: Seq<char>| group_of(s)),
        PatternPart::PatternDateTime { placeholder, length_date, length_time, calendar } => kw is Some && w == "date_time"@ && placeholder@ == tk[id as int].s
            && length_date == given(m, "date"@, |s: Seq<char>| date_of(s)) && length_time == given(m, "time"@, |s: Seq<char>| time_of(s))
            && (calendar is Some <==> m.contains_key(VpK::S("calendar"@))),
        PatternPart::PatternComplex { placeholder, complex, selectors } => kw is Some && (w == "ordinal"@ || w == "plural"@ || w == "select"@) && placeholder@ == tk[id as int].s
            && complex == complex_of(w) && selectors < all.len() && vm(all[selectors as int]@) == m,
        _ => false,
    }
}
// iteration over the options of a pattern
pub open spec fn seen(order: Seq<VpK>, n: nat, k: VpK) -> bool { exists|i: int| 0 <= i < n && (#[trigger] order[i]) == k }
pub open spec fn seen_ok(w: Seq<char>, order: Seq<VpK>, n: nat, m: Map<VpK, Seq<char>>, names: Set<VpK>) -> bool {
    forall|i: int| 0 <= i < n ==> ok_keyed(w, #[trigger] order[i], m[order[i]], names)
}
proof fn lemma_seen_next(order: Seq<VpK>, n: nat)
    requires 0 < n <= order.len(),
    ensures forall|k: VpK| #[trigger] seen(order, n, k) <==> seen(order, (n - 1) as nat, k) || k == order[n - 1],
{
    assert forall|k: VpK| #[trigger] seen(order, n, k) <==> seen(order, (n - 1) as nat, k) || k == order[n - 1] by {
        if seen(order, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] order[i]) == k; if i < n - 1 { assert(order[i] == k); } }
        if seen(order, (n - 1) as nat, k) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] order[i]) == k; assert(order[i] == k); }
        if k == order[n - 1] { assert(order[n - 1] == k); }
    }
}
proof fn lemma_seen_all(w: Seq<char>, order: Seq<VpK>, m: Map<VpK, Seq<char>>, names: Set<VpK>)
    requires order.to_set() == m.dom(),
    ensures
        forall|k: VpK| #[trigger] seen(order, order.len(), k) <==> m.contains_key(k),
        seen_ok(w, order, order.len(), m, names) ==> all_keyed(w, m, names),
{
    reveal(all_keyed);
    assert forall|k: VpK| #[trigger] seen(order, order.len(), k) <==> m.contains_key(k) by {
        assert(order.to_set().contains(k) <==> order.contains(k));
    }
    assert forall|k: VpK| #[trigger] m.contains_key(k) && seen_ok(w, order, order.len(), m, names) implies ok_keyed(w, k, m[k], names) by {
        assert(order.to_set().contains(k));
        assert(order.contains(k));
    }
}
proof fn lemma_at(w: Seq<char>, order: Seq<VpK>, m: Map<VpK, Seq<char>>, i: int, names: Set<VpK>)
    requires order.to_set() == m.dom(), 0 <= i < order.len(),
    ensures m.contains_key(order[i]), all_keyed(w, m, names) ==> ok_keyed(w, order[i], m[order[i]], names),
{ reveal(all_keyed); assert(order.contains(order[i])); assert(order.to_set().contains(order[i])); }
proof fn lemma_words()
    ensures
        "decimal"@ != "date_time"@, "decimal"@ != "ordinal"@, "decimal"@ != "plural"@, "decimal"@ != "select"@, "date_time"@ != "ordinal"@, "date_time"@ != "plural"@,
        "date_time"@ != "select"@, "ordinal"@ != "plural"@, "ordinal"@ != "select"@, "plural"@ != "select"@,
        "sign"@ != "group"@, "date"@ != "time"@, "date"@ != "calendar"@, "time"@ != "calendar"@,
{
    reveal_strlit("decimal"); reveal_strlit("date_time"); reveal_strlit("ordinal"); reveal_strlit("plural"); reveal_strlit("select");
    reveal_strlit("sign"); reveal_strlit("group"); reveal_strlit("date"); reveal_strlit("time"); reveal_strlit("calendar");
    assert("ordinal"@[0] == 'o'); assert("plural"@[0] == 'p'); assert("select"@[0] == 's'); assert("decimal"@[1] == 'e'); assert("date_time"@[1] == 'a'); assert("decimal"@[0] == 'd'); assert("date_time"@[0] == 'd');
    assert("date"@[0] == 'd'); assert("time"@[0] == 't'); assert("calendar"@[0] == 'c'); assert("sign"@[0] == 's'); assert("group"@[0] == 'g');
}
@file crates/localiser/src/formatter.rs
@fn part_pattern
    requires pat_shape(nv(tree.nodes@), *index, tree.tokens@.len() as int), opts_ok(*option_selectors),
    ensures r is Err ==> !(r->Err_0 is NoGrammar),
        r is Ok ==> valid_pat(tks(tree.tokens@), pat_kw(nv(tree.nodes@), *index), pat_sels(nv(tree.nodes@), *index), patterns@.dom()), // [F01]
        valid_pat(tks(tree.tokens@), pat_kw(nv(tree.nodes@), *index), pat_sels(nv(tree.nodes@), *index), patterns@.dom())
            && !has_calendar(tks(tree.tokens@), pat_kw(nv(tree.nodes@), *index), pat_sels(nv(tree.nodes@), *index)) ==> r is Ok, // [F01]
        r is Ok ==> final(pattern)@ == old(pattern)@.push(final(pattern)@.last())
            && pat_is(tks(tree.tokens@), final(pattern)@.last(), pat_id(nv(tree.nodes@), *index), pat_kw(nv(tree.nodes@), *index), pat_sels(nv(tree.nodes@), *index), final(selectors)@), // [F01] [T03]
        r is Ok ==> if final(pattern)@.last() is PatternComplex { final(selectors)@ == old(selectors)@.push(final(selectors)@.last()) && final(pattern)@.last()->selectors == old(selectors)@.len() }
            else { final(selectors)@ == old(selectors)@ }, // [T03]
@entry
    let ghost tk = tks(tree.tokens@);
    let ghost n = nv(tree.nodes@);
    let ghost sels = pat_sels(n, *index);
    let ghost m = map_of(tk, sels);
    let ghost names = patterns@.dom();
    let ghost kwo = pat_kw(n, *index);
    proof {
        lemma_words();
        let c = kids(n, *index);
        assert(id_leaf(n, c[0], tree.tokens@.len() as int));
        if c.len() > 1 { assert(id_leaf(n, c[1], tree.tokens@.len() as int)); }
    }
@loop 0
    invariant
        vp_it0.of() == strings.order(), vp_it0.map() == strings@, vp_it0.pos() <= vp_it0.of().len(), strings.order().to_set() == strings@.dom(), vm(strings@) == m,
        names == patterns@.dom(), kwo is Some, tk[kwo->Some_0 as int].s == "decimal"@, m == map_of(tk, sels), pat_kw(n, *index) == kwo, pat_sels(n, *index) == sels, tk == tks(tree.tokens@), n == nv(tree.nodes@),
        pattern@ == old(pattern)@, selectors@ == old(selectors)@, opts_ok(*option_selectors),
        seen_ok("decimal"@, vp_it0.of(), vp_it0.pos(), m, names), // [F01]
        sign == (if seen(vp_it0.of(), vp_it0.pos(), VpK::S("sign"@)) { sign_of(m[VpK::S("sign"@)]) } else { None }), // [F01] [T03]
        group == (if seen(vp_it0.of(), vp_it0.pos(), VpK::S("group"@)) { group_of(m[VpK::S("group"@)]) } else { None }), // [F01] [T03]
    ensures vp_it0.pos() == vp_it0.of().len(),
    decreases vp_it0.of().len() - vp_it0.pos(),
@head 0
    proof {
        let p = vp_it0.pos() - 1;
        lemma_words();
        lemma_at("decimal"@, vp_it0.of(), m, p, names);
        lemma_seen_next(vp_it0.of(), vp_it0.pos());
    }
@after 0
    proof { lemma_seen_all("decimal"@, strings.order(), m, names); }
@loop 1
    invariant
        vp_it1.of() == strings.order(), vp_it1.map() == strings@, vp_it1.pos() <= vp_it1.of().len(), strings.order().to_set() == strings@.dom(), vm(strings@) == m,
        names == patterns@.dom(), kwo is Some, tk[kwo->Some_0 as int].s == "date_time"@, m == map_of(tk, sels), pat_kw(n, *index) == kwo, pat_sels(n, *index) == sels, tk == tks(tree.tokens@), n == nv(tree.nodes@),
        pattern@ == old(pattern)@, selectors@ == old(selectors)@, opts_ok(*option_selectors),
        seen_ok("date_time"@, vp_it1.of(), vp_it1.pos(), m, names), // [F01]
        length_date == (if seen(vp_it1.of(), vp_it1.pos(), VpK::S("date"@)) { date_of(m[VpK::S("date"@)]) } else { None }), // [F01] [T03]
        length_time == (if seen(vp_it1.of(), vp_it1.pos(), VpK::S("time"@)) { time_of(m[VpK::S("time"@)]) } else { None }), // [F01] [T03]
        calendar is Some <==> seen(vp_it1.of(), vp_it1.pos(), VpK::S("calendar"@)),
    ensures vp_it1.pos() == vp_it1.of().len(),
    decreases vp_it1.of().len() - vp_it1.pos(),
@head 1
    proof {
        let p = vp_it1.pos() - 1;
        lemma_words();
        lemma_at("date_time"@, vp_it1.of(), m, p, names);
        lemma_seen_next(vp_it1.of(), vp_it1.pos());
    }
@after 1
    proof { lemma_seen_all("date_time"@, strings.order(), m, names); }
@loop 2
    invariant_except_break hyphens.text() == locale_string@, at_char(locale_string@, tag_position as int),
    decreases hyphens.left(),
@loop 3
    invariant
        vp_it2.of() == strings.order(), vp_it2.map() == strings@, vp_it2.pos() <= vp_it2.of().len(), strings.order().to_set() == strings@.dom(), vm(strings@) == m,
        names == patterns@.dom(), kwo is Some, tk[kwo->Some_0 as int].s == "ordinal"@, m == map_of(tk, sels), pat_kw(n, *index) == kwo, pat_sels(n, *index) == sels, tk == tks(tree.tokens@), n == nv(tree.nodes@),
        pattern@ == old(pattern)@, selectors@ == old(selectors)@, opts_ok(*option_selectors),
        seen_ok("ordinal"@, vp_it2.of(), vp_it2.pos(), m, names), // [F01]
        other == seen(vp_it2.of(), vp_it2.pos(), VpK::S("other"@)), // [F01]
    ensures vp_it2.pos() == vp_it2.of().len(),
    decreases vp_it2.of().len() - vp_it2.pos(),
@head 3
    proof {
        let p = vp_it2.pos() - 1;
        lemma_words();
        lemma_at("ordinal"@, vp_it2.of(), m, p, names);
        lemma_seen_next(vp_it2.of(), vp_it2.pos());
    }
@after 3
    proof { lemma_seen_all("ordinal"@, strings.order(), m, names); }
@loop 4
    invariant
        vp_it3.of() == strings.order(), vp_it3.map() == strings@, vp_it3.pos() <= vp_it3.of().len(), strings.order().to_set() == strings@.dom(), vm(strings@) == m,
        names == patterns@.dom(), kwo is Some, tk[kwo->Some_0 as int].s == "plural"@, m == map_of(tk, sels), pat_kw(n, *index) == kwo, pat_sels(n, *index) == sels, tk == tks(tree.tokens@), n == nv(tree.nodes@),
        pattern@ == old(pattern)@, selectors@ == old(selectors)@, opts_ok(*option_selectors),
        seen_ok("plural"@, vp_it3.of(), vp_it3.pos(), m, names), // [F01]
        other == seen(vp_it3.of(), vp_it3.pos(), VpK::S("other"@)), // [F01]
    ensures vp_it3.pos() == vp_it3.of().len(),
    decreases vp_it3.of().len() - vp_it3.pos(),
@head 4
    proof {
        let p = vp_it3.pos() - 1;
        lemma_words();
        lemma_at("plural"@, vp_it3.of(), m, p, names);
        lemma_seen_next(vp_it3.of(), vp_it3.pos());
    }
@after 4
    proof { lemma_seen_all("plural"@, strings.order(), m, names); }
@loop 5
    invariant
        vp_it4.of() == strings.order(), vp_it4.map() == strings@, vp_it4.pos() <= vp_it4.of().len(), strings.order().to_set() == strings@.dom(), vm(strings@) == m,
        names == patterns@.dom(), kwo is Some, tk[kwo->Some_0 as int].s == "select"@, m == map_of(tk, sels), pat_kw(n, *index) == kwo, pat_sels(n, *index) == sels, tk == tks(tree.tokens@), n == nv(tree.nodes@),
        pattern@ == old(pattern)@, selectors@ == old(selectors)@, opts_ok(*option_selectors),
        seen_ok("select"@, vp_it4.of(), vp_it4.pos(), m, names), // [F01]
    ensures vp_it4.pos() == vp_it4.of().len(),
    decreases vp_it4.of().len() - vp_it4.pos(),
@head 5
    proof {
        let p = vp_it4.pos() - 1;
        lemma_words();
        lemma_at("select"@, vp_it4.of(), m, p, names);
        lemma_seen_next(vp_it4.of(), vp_it4.pos());
    }
@after 5
    proof { lemma_seen_all("select"@, strings.order(), m, names); }
@mid
// ---- whole pattern strings (F01, T03) ----------------------------------------------------------------------
pub open spec fn valid_part(tk: Seq<Tk>, p: Part, names: Set<VpK>, reg: CommandRegistry) -> bool {
    match p { Part::Text(_) => true, Part::Num(_) => true, Part::Pat { id, kw, sels } => valid_pat(tk, kw, sels, names), Part::Cmd(items) => valid_cmd(tk, items, reg) }
}
pub open spec fn cal_part(tk: Seq<Tk>, p: Part) -> bool { match p { Part::Pat { id, kw, sels } => has_calendar(tk, kw, sels), _ => false } }
#[verifier::opaque]
pub open spec fn valid_upto(tk: Seq<Tk>, ps: Seq<Part>, n: int, names: Set<VpK>, reg: CommandRegistry) -> bool {
    forall|i: int| 0 <= i < n ==> valid_part(tk, #[trigger] ps[i], names, reg)
}
#[verifier::opaque]
pub open spec fn no_cal(tk: Seq<Tk>, ps: Seq<Part>) -> bool { forall|i: int| 0 <= i < ps.len() ==> !cal_part(tk, #[trigger] ps[i]) }
pub open spec fn name_of(tk: Seq<Tk>, nd: Named) -> Seq<char> { tk[nd.id->Some_0 as int].s }
// the names of the first k named strings
pub open spec fn name_set(tk: Seq<Tk>, named: Seq<Named>, k: int) -> Set<VpK>
    decreases k,
{ if k <= 0 { Set::empty() } else { name_set(tk, named, k - 1).insert(VpK::S(name_of(tk, named[k - 1]))) } }
pub open spec fn new_name(tk: Seq<Tk>, named: Seq<Named>, k: int) -> bool {
    name_of(tk, named[k]) != "_"@ && !name_set(tk, named, k).contains(VpK::S(name_of(tk, named[k])))
}
pub open spec fn valid_one(tk: Seq<Tk>, named: Seq<Named>, k: int, reg: CommandRegistry) -> bool {
    let ps = named[k].parts->Some_0;
    new_name(tk, named, k) && valid_upto(tk, ps, ps.len() as int, name_set(tk, named, k), reg)
}
#[verifier::opaque]
pub open spec fn valid_named(tk: Seq<Tk>, named: Seq<Named>, n: int, reg: CommandRegistry) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] valid_one(tk, named, k, reg) }
pub open spec fn valid_all(tk: Seq<Tk>, m: M, reg: CommandRegistry) -> bool {
    valid_named(tk, m.named, m.named.len() as int, reg) && valid_upto(tk, m.main, m.main.len() as int, name_set(tk, m.named, m.named.len() as int), reg)
}
#[verifier::opaque]
pub open spec fn no_cal_named(tk: Seq<Tk>, named: Seq<Named>) -> bool { forall|k: int| 0 <= k < named.len() ==> no_cal(tk, (#[trigger] named[k]).parts->Some_0) }
pub open spec fn no_cal_all(tk: Seq<Tk>, m: M) -> bool { no_cal_named(tk, m.named) && no_cal(tk, m.main) }
pub open spec fn nums(ps: Seq<Part>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { nums(ps, n - 1) + if ps[n - 1] is Num { 1int } else { 0 } } }
pub open spec fn nums_all(named: Seq<Named>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { nums_all(named, k - 1) + nums(named[k - 1].parts->Some_0, named[k - 1].parts->Some_0.len() as int) } }
// what a part of a pattern string becomes; every number sign has a number of its own
pub open spec fn part_is(tk: Seq<Tk>, v: PatternPart, p: Part, num: int, all: Seq<HashMap<String, String>>, reg: CommandRegistry) -> bool {
    match p {
        Part::Text(ts) => v is Text && v->Text_0@ == text(tk, ts),
        Part::Num(_) => v is NumberSign && v->NumberSign_0 == num,
        Part::Pat { id, kw, sels } => pat_is(tk, v, id, kw, sels, all),
        Part::Cmd(items) => cmd_is(tk, v, items, reg),
    }
}
#[verifier::opaque]
pub open spec fn parts_are(tk: Seq<Tk>, v: Seq<PatternPart>, ps: Seq<Part>, n: int, base: int, all: Seq<HashMap<String, String>>, reg: CommandRegistry) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> part_is(tk, #[trigger] v[i], ps[i], base + nums(ps, i), all, reg)
}
pub open spec fn one_is(tk: Seq<Tk>, pats: Map<VpK, Vec<PatternPart>>, named: Seq<Named>, k: int, all: Seq<HashMap<String, String>>, reg: CommandRegistry) -> bool {
    let x = VpK::S(name_of(tk, named[k]));
    let ps = named[k].parts->Some_0;
    pats.contains_key(x) && parts_are(tk, pats[x]@, ps, ps.len() as int, nums_all(named, k), all, reg)
}
#[verifier::opaque]
pub open spec fn named_are(tk: Seq<Tk>, pats: Map<VpK, Vec<PatternPart>>, named: Seq<Named>, n: int, all: Seq<HashMap<String, String>>, reg: CommandRegistry) -> bool {
    pats.dom() == name_set(tk, named, n) && forall|k: int| 0 <= k < n ==> #[trigger] one_is(tk, pats, named, k, all, reg)
}
pub open spec fn fmt_is(tk: Seq<Tk>, pats: Map<VpK, Vec<PatternPart>>, m: M, all: Seq<HashMap<String, String>>, reg: CommandRegistry) -> bool {
    let l = m.named.len() as int;
    let u = VpK::S("_"@);
    &&& pats.contains_key(u) && parts_are(tk, pats[u]@, m.main, m.main.len() as int, nums_all(m.named, l), all, reg)
    &&& named_are(tk, pats.remove(u), m.named, l, all, reg)
}
// ---- the invariant of the analysis ------------------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn prog(pats: Map<VpK, Vec<PatternPart>>, v: Seq<PatternPart>, all: Seq<HashMap<String, String>>, numbers: nat, rank: Ranks, k: nat) -> bool {
    &&& ranked(pats, all, rank)
    &&& forall|x: VpK| #[trigger] pats.contains_key(x) ==> (rank.name)(x) < k
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is PatternComplex ==> (rank.sel)(v[i]->selectors as int) <= k
    &&& forall|i: int| 0 <= i < v.len() ==> part_ok(#[trigger] v[i], all, numbers)
    &&& forall|x: VpK, i: int| pats.contains_key(x) && 0 <= i < pats[x]@.len() ==> part_ok(#[trigger] pats[x]@[i], all, numbers)
}
pub open spec fn rank_sel(rank: Ranks, s: int, k: nat) -> Ranks { Ranks { name: rank.name, sel: |x: int| if x == s { k } else { (rank.sel)(x) } } }
pub open spec fn rank_name(rank: Ranks, n: VpK, k: nat) -> Ranks { Ranks { name: |x: VpK| if x == n { k } else { (rank.name)(x) }, sel: rank.sel } }
proof fn lemma_prog_init(all: Seq<HashMap<String, String>>, pats: Map<VpK, Vec<PatternPart>>)
    requires all.len() == 0, pats == Map::<VpK, Vec<PatternPart>>::empty(),
    ensures prog(pats, Seq::empty(), all, 0, Ranks { name: |x: VpK| 0, sel: |s: int| 0 }, 0),
{ reveal(prog); reveal(ranked); }
proof fn lemma_prog_plain(pats: Map<VpK, Vec<PatternPart>>, v: Seq<PatternPart>, all: Seq<HashMap<String, String>>, numbers: nat, rank: Ranks, k: nat, p: PatternPart)
    requires prog(pats, v, all, numbers, rank, k), !(p is PatternComplex), !(p is NumberSign), part_ok(p, all, numbers),
    ensures prog(pats, v.push(p), all, numbers, rank, k),
{ reveal(prog); }
proof fn lemma_prog_num(pats: Map<VpK, Vec<PatternPart>>, v: Seq<PatternPart>, all: Seq<HashMap<String, String>>, numbers: nat, rank: Ranks, k: nat, p: PatternPart)
    requires prog(pats, v, all, numbers, rank, k), p is NumberSign, p->NumberSign_0 == numbers,
    ensures prog(pats, v.push(p), all, numbers + 1, rank, k),
{ reveal(prog); }
proof fn lemma_prog_sel(pats: Map<VpK, Vec<PatternPart>>, v: Seq<PatternPart>, all: Seq<HashMap<String, String>>, numbers: nat, rank: Ranks, k: nat, p: PatternPart, h: HashMap<String, String>)
    requires
        prog(pats, v, all, numbers, rank, k), p is PatternComplex, p->selectors == all.len(),
        forall|x: VpK| #[trigger] h@.contains_key(x) ==> pats.contains_key(VpK::S(h@[x]@)),
    ensures prog(pats, v.push(p), all.push(h), numbers, rank_sel(rank, all.len() as int, k), k),
{
    reveal(prog); reveal(ranked);
    let a2 = all.push(h);
    let r2 = rank_sel(rank, all.len() as int, k);
    assert forall|i: int| 0 <= i < v.len() implies part_ok(#[trigger] v[i], a2, numbers) by { assert(part_ok(v[i], all, numbers)); }
    assert forall|x: VpK, i: int| pats.contains_key(x) && 0 <= i < pats[x]@.len() implies part_ok(#[trigger] pats[x]@[i], a2, numbers) by { assert(part_ok(pats[x]@[i], all, numbers)); }
    assert forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is PatternComplex implies (r2.sel)(v[i]->selectors as int) <= k by { assert(part_ok(v[i], all, numbers)); }
    assert forall|x: VpK, i: int| pats.contains_key(x) && 0 <= i < pats[x]@.len() && (#[trigger] pats[x]@[i]) is PatternComplex implies (r2.sel)(pats[x]@[i]->selectors as int) <= (r2.name)(x) by {
        assert(part_ok(pats[x]@[i], all, numbers));
    }
    assert forall|s: int, x: VpK| 0 <= s < a2.len() && (#[trigger] a2[s]@.contains_key(x)) implies pats.contains_key(VpK::S(a2[s]@[x]@)) && (r2.name)(VpK::S(a2[s]@[x]@)) < (r2.sel)(s) by {
        if s < all.len() { assert(all[s]@.contains_key(x)); }
    }
}
proof fn lemma_prog_insert(pats: Map<VpK, Vec<PatternPart>>, v: Vec<PatternPart>, all: Seq<HashMap<String, String>>, numbers: nat, rank: Ranks, k: nat, x: VpK)
    requires prog(pats, v@, all, numbers, rank, k), !pats.contains_key(x),
    ensures prog(pats.insert(x, v), Seq::empty(), all, numbers, rank_name(rank, x, k), k + 1),
{
    reveal(prog); reveal(ranked);
    let p2 = pats.insert(x, v);
    let r2 = rank_name(rank, x, k);
    assert forall|y: VpK, i: int| p2.contains_key(y) && 0 <= i < p2[y]@.len() implies part_ok(#[trigger] p2[y]@[i], all, numbers) by {
        if y == x { assert(part_ok(v@[i], all, numbers)); } else { assert(part_ok(pats[y]@[i], all, numbers)); }
    }
    assert forall|y: VpK, i: int| p2.contains_key(y) && 0 <= i < p2[y]@.len() && (#[trigger] p2[y]@[i]) is PatternComplex implies (r2.sel)(p2[y]@[i]->selectors as int) <= (r2.name)(y) by {
        if y == x { assert(v@[i] is PatternComplex); } else { assert(pats[y]@[i] is PatternComplex); }
    }
    assert forall|s: int, y: VpK| 0 <= s < all.len() && (#[trigger] all[s]@.contains_key(y)) implies p2.contains_key(VpK::S(all[s]@[y]@)) && (r2.name)(VpK::S(all[s]@[y]@)) < (r2.sel)(s) by {
        assert(pats.contains_key(VpK::S(all[s]@[y]@)));
    }
}
proof fn lemma_prog_wf(pats: Map<VpK, Vec<PatternPart>>, v: Seq<PatternPart>, all: Seq<HashMap<String, String>>, numbers: nat, rank: Ranks, k: nat)
    requires prog(pats, v, all, numbers, rank, k),
    ensures wf_of(pats, all, numbers),
{ reveal(prog); reveal(wf_of); }
// ---- growing lists of parts -------------------------------------------------------------------------------------
proof fn lemma_valid_next(tk: Seq<Tk>, ps: Seq<Part>, n: int, names: Set<VpK>, reg: CommandRegistry)
    requires 0 <= n < ps.len(),
    ensures
        valid_upto(tk, ps, 0, names, reg),
        valid_upto(tk, ps, n, names, reg) && valid_part(tk, ps[n], names, reg) ==> valid_upto(tk, ps, n + 1, names, reg),
        valid_upto(tk, ps, ps.len() as int, names, reg) ==> valid_part(tk, ps[n], names, reg),
        no_cal(tk, ps) ==> !cal_part(tk, ps[n]),
{ reveal(valid_upto); reveal(no_cal); }
proof fn lemma_valid_zero(tk: Seq<Tk>, ps: Seq<Part>, names: Set<VpK>, reg: CommandRegistry, named: Seq<Named>, base: int, all: Seq<HashMap<String, String>>)
    ensures valid_upto(tk, ps, 0, names, reg), valid_named(tk, named, 0, reg), parts_are(tk, Seq::empty(), ps, 0, base, all, reg), named_are(tk, Map::empty(), named, 0, all, reg),
{ reveal(valid_upto); reveal(valid_named); reveal(parts_are); reveal(named_are); assert(Map::<VpK, Vec<PatternPart>>::empty().dom() =~= name_set(tk, named, 0)); }
proof fn lemma_named_next(tk: Seq<Tk>, named: Seq<Named>, k: int, reg: CommandRegistry)
    requires 0 <= k < named.len(),
    ensures
        valid_named(tk, named, k, reg) && valid_one(tk, named, k, reg) ==> valid_named(tk, named, k + 1, reg),
        valid_named(tk, named, named.len() as int, reg) ==> valid_one(tk, named, k, reg),
        no_cal_named(tk, named) ==> no_cal(tk, named[k].parts->Some_0),
{ reveal(valid_named); reveal(no_cal_named); }
proof fn lemma_part_more(tk: Seq<Tk>, v: PatternPart, p: Part, num: int, all: Seq<HashMap<String, String>>, h: HashMap<String, String>, reg: CommandRegistry)
    requires part_is(tk, v, p, num, all, reg),
    ensures part_is(tk, v, p, num, all.push(h), reg),
{}
proof fn lemma_parts_sel(tk: Seq<Tk>, v: Seq<PatternPart>, ps: Seq<Part>, n: int, base: int, all: Seq<HashMap<String, String>>, h: HashMap<String, String>, reg: CommandRegistry)
    requires parts_are(tk, v, ps, n, base, all, reg),
    ensures parts_are(tk, v, ps, n, base, all.push(h), reg),
{
    reveal(parts_are);
    assert forall|i: int| 0 <= i < n implies part_is(tk, #[trigger] v[i], ps[i], base + nums(ps, i), all.push(h), reg) by { lemma_part_more(tk, v[i], ps[i], base + nums(ps, i), all, h, reg); }
}
proof fn lemma_parts_next(tk: Seq<Tk>, v: Seq<PatternPart>, ps: Seq<Part>, n: int, base: int, all: Seq<HashMap<String, String>>, reg: CommandRegistry, p: PatternPart)
    requires parts_are(tk, v, ps, n, base, all, reg), part_is(tk, p, ps[n], base + nums(ps, n), all, reg), 0 <= n,
    ensures parts_are(tk, v.push(p), ps, n + 1, base, all, reg),
{ reveal(parts_are); }
proof fn lemma_named_sel(tk: Seq<Tk>, pats: Map<VpK, Vec<PatternPart>>, named: Seq<Named>, n: int, all: Seq<HashMap<String, String>>, h: HashMap<String, String>, reg: CommandRegistry)
    requires named_are(tk, pats, named, n, all, reg),
    ensures named_are(tk, pats, named, n, all.push(h), reg),
{
    reveal(named_are);
    assert forall|k: int| 0 <= k < n implies #[trigger] one_is(tk, pats, named, k, all.push(h), reg) by {
        assert(one_is(tk, pats, named, k, all, reg));
        let x = VpK::S(name_of(tk, named[k]));
        lemma_parts_sel(tk, pats[x]@, named[k].parts->Some_0, named[k].parts->Some_0.len() as int, nums_all(named, k), all, h, reg);
    }
}
proof fn lemma_named_insert(tk: Seq<Tk>, pats: Map<VpK, Vec<PatternPart>>, named: Seq<Named>, k: int, all: Seq<HashMap<String, String>>, reg: CommandRegistry, v: Vec<PatternPart>)
    requires
        named_are(tk, pats, named, k, all, reg), 0 <= k < named.len(), !pats.contains_key(VpK::S(name_of(tk, named[k]))),
        parts_are(tk, v@, named[k].parts->Some_0, named[k].parts->Some_0.len() as int, nums_all(named, k), all, reg),
    ensures named_are(tk, pats.insert(VpK::S(name_of(tk, named[k])), v), named, k + 1, all, reg),
{
    reveal(named_are);
    let p2 = pats.insert(VpK::S(name_of(tk, named[k])), v);
    assert(p2.dom() =~= name_set(tk, named, k + 1));
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] one_is(tk, p2, named, j, all, reg) by { if j < k { assert(one_is(tk, pats, named, j, all, reg)); } }
}
proof fn lemma_not_main(tk: Seq<Tk>, named: Seq<Named>, n: int, reg: CommandRegistry)
    requires valid_named(tk, named, n, reg), 0 <= n,
    ensures !name_set(tk, named, n).contains(VpK::S("_"@)),
    decreases n,
{
    if n > 0 { reveal(valid_named); assert(valid_one(tk, named, n - 1, reg)); lemma_not_main(tk, named, n - 1, reg); }
}
proof fn lemma_fmt(tk: Seq<Tk>, pats: Map<VpK, Vec<PatternPart>>, m: M, all: Seq<HashMap<String, String>>, reg: CommandRegistry, v: Vec<PatternPart>)
    requires
        named_are(tk, pats, m.named, m.named.len() as int, all, reg), valid_named(tk, m.named, m.named.len() as int, reg),
        parts_are(tk, v@, m.main, m.main.len() as int, nums_all(m.named, m.named.len() as int), all, reg),
    ensures fmt_is(tk, pats.insert(VpK::S("_"@), v), m, all, reg), !pats.contains_key(VpK::S("_"@)),
{
    lemma_not_main(tk, m.named, m.named.len() as int, reg);
    assert(!pats.contains_key(VpK::S("_"@))) by { reveal(named_are); }
    assert(pats.insert(VpK::S("_"@), v).remove(VpK::S("_"@)) =~= pats);
}
// ---- nodes of a string -----------------------------------------------------------------------------------------
pub open spec fn kid_is(n: Seq<NodeV>, j: usize, p: Part, nt: int) -> bool {
    &&& j < n.len()
    &&& match p {
        Part::Text(ts) => n[j as int].typ == NodeType::Text && n[j as int].toks == Some(ts) && lim_toks(ts, nt),
        Part::Num(t) => n[j as int].typ == NodeType::NumberSign,
        Part::Pat { id, kw, sels } => n[j as int].typ == NodeType::Pattern && pat_shape(n, j, nt) && pat_id(n, j) == id && pat_kw(n, j) == kw && pat_sels(n, j) == sels,
        Part::Cmd(items) => n[j as int].typ == NodeType::Command && cmd_shape(n, j, nt) && cmd_items(n, j) == items,
    }
}
proof fn lemma_kid(n: Seq<NodeV>, s: usize, ps: Seq<Part>, par: usize, hi: int, i: int, nt: int)
    requires str_at(n, s, ps, par, hi), lim_parts(ps, nt), 0 <= i < ps.len(),
    ensures kid_is(n, kids(n, s)[i], ps[i], nt),
{
    reveal(str_at); reveal(lim_parts);
    let c = kids(n, s);
    let j = c[i];
    let h = next_of(c, i, hi);
    assert(str_kid(n, s, c, ps, i, hi));
    assert(lim(ps[i], nt));
    match ps[i] {
        Part::Pat { id, kw, sels } => { lemma_pat_shape(n, j, id, kw, sels, h, nt); reveal(pat_at); }
        Part::Cmd(items) => { lemma_cmd_shape(n, j, items, h, nt); reveal(cmd_at); }
        _ => {}
    }
}
proof fn lemma_str(n: Seq<NodeV>, s: usize, ps: Seq<Part>, par: usize, hi: int)
    requires str_at(n, s, ps, par, hi),
    ensures s < n.len(), n[s as int].children is Some, kids(n, s).len() == ps.len(),
{ reveal(str_at); }
proof fn lemma_grp(n: Seq<NodeV>, g: usize, named: Seq<Named>, hi: int)
    requires grp_at(n, g, named, hi),
    ensures g < n.len(), n[g as int].children is Some, kids(n, g).len() == named.len(),
{ reveal(grp_at); }
pub open spec fn name_kid(n: Seq<NodeV>, j: usize, nd: Named, hi: int) -> bool {
    let c = kids(n, j);
    &&& j < n.len() && n[j as int].children is Some && c.len() == 2
    &&& c[0] < n.len() && n[c[0] as int].toks == Some(seq![nd.id->Some_0])
    &&& str_at(n, c[1], nd.parts->Some_0, j, hi)
}
proof fn lemma_name_kid(n: Seq<NodeV>, g: usize, named: Seq<Named>, hi: int, k: int)
    requires grp_at(n, g, named, hi), 0 <= k < named.len(), complete(named[k]),
    ensures name_kid(n, kids(n, g)[k], named[k], next_of(kids(n, g), k, hi)),
{ reveal(grp_at); reveal(named_at); assert(grp_kid(n, g, kids(n, g), named, k, hi)); }
proof fn lemma_main_names(tk: Seq<Tk>, n: int, m: M)
    requires n == tk.len(), run(tk, n) == Some(m), accepted(tk), n <= usize::MAX,
    ensures mlim(m, n), forall|k: int| 0 <= k < m.named.len() ==> complete(#[trigger] m.named[k]),
{ lemma_limits(tk, n); }
proof fn lemma_named_dom(tk: Seq<Tk>, pats: Map<VpK, Vec<PatternPart>>, named: Seq<Named>, n: int, all: Seq<HashMap<String, String>>, reg: CommandRegistry)
    requires named_are(tk, pats, named, n, all, reg),
    ensures pats.dom() == name_set(tk, named, n),
{ reveal(named_are); }
// a selector of a pattern that was accepted leads to a named string
proof fn lemma_sel_names(tk: Seq<Tk>, v: PatternPart, id: usize, kw: Option<usize>, sels: Seq<(usize, usize)>, all: Seq<HashMap<String, String>>, names: Set<VpK>)
    requires pat_is(tk, v, id, kw, sels, all), valid_pat(tk, kw, sels, names), v is PatternComplex,
    ensures forall|x: VpK| #[trigger] all[v->selectors as int]@.contains_key(x) ==> names.contains(VpK::S(all[v->selectors as int]@[x]@)),
{
    lemma_words();
    reveal(all_keyed);
    let h = all[v->selectors as int]@;
    let m = map_of(tk, sels);
    assert forall|x: VpK| #[trigger] h.contains_key(x) implies names.contains(VpK::S(h[x]@)) by {
        assert(vm(h).contains_key(x));
        assert(m.contains_key(x));
        assert(vm(h)[x] == h[x]@);
    }
}
pub open spec fn made(tk: Seq<Tk>, m: M, pats: Map<VpK, Vec<PatternPart>>, all: Seq<HashMap<String, String>>, v: Seq<PatternPart>, ps: Seq<Part>, n: int, k: int, numbers: nat, rank: Ranks, reg: CommandRegistry) -> bool {
    &&& named_are(tk, pats, m.named, k, all, reg)
    &&& parts_are(tk, v, ps, n, nums_all(m.named, k), all, reg)
    &&& prog(pats, v, all, numbers, rank, k as nat)
    &&& numbers == nums_all(m.named, k) + nums(ps, n)
}
proof fn lemma_made(tk: Seq<Tk>, m: M, pats: Map<VpK, Vec<PatternPart>>, all: Seq<HashMap<String, String>>, all2: Seq<HashMap<String, String>>, v: Seq<PatternPart>, p: PatternPart, ps: Seq<Part>, n: int, k: int, numbers: nat, rank: Ranks, reg: CommandRegistry) -> (r2: Ranks)
    requires
        made(tk, m, pats, all, v, ps, n, k, numbers, rank, reg), 0 <= k, 0 <= n < ps.len(),
        part_is(tk, p, ps[n], numbers as int, all2, reg), valid_part(tk, ps[n], pats.dom(), reg),
        if p is PatternComplex { all2 == all.push(all2.last()) && p->selectors == all.len() } else { all2 == all },
    ensures made(tk, m, pats, all2, v.push(p), ps, n + 1, k, if ps[n] is Num { numbers + 1 } else { numbers }, r2, reg),
{
    let kk = k as nat;
    if p is PatternComplex {
        let h = all2.last();
        lemma_named_sel(tk, pats, m.named, k, all, h, reg);
        lemma_parts_sel(tk, v, ps, n, nums_all(m.named, k), all, h, reg);
        lemma_parts_next(tk, v, ps, n, nums_all(m.named, k), all2, reg, p);
        match ps[n] {
            Part::Pat { id, kw, sels } => { lemma_sel_names(tk, p, id, kw, sels, all2, pats.dom()); }
            _ => {}
        }
        assert(all2[all.len() as int] == h);
        lemma_prog_sel(pats, v, all, numbers, rank, kk, p, h);
        rank_sel(rank, all.len() as int, kk)
    } else {
        lemma_parts_next(tk, v, ps, n, nums_all(m.named, k), all, reg, p);
        if ps[n] is Num { lemma_prog_num(pats, v, all, numbers, rank, kk, p); } else { lemma_prog_plain(pats, v, all, numbers, rank, kk, p); }
        rank
    }
}
proof fn lemma_opts(o: OptionSelectors)
    requires
        o.valid_plurals@.len() == 6, o.valid_plurals@[0]@ == "zero"@, o.valid_plurals@[1]@ == "one"@, o.valid_plurals@[2]@ == "two"@, o.valid_plurals@[3]@ == "few"@,
        o.valid_plurals@[4]@ == "many"@, o.valid_plurals@[5]@ == "other"@,
        o.calendars@.len() == 7, o.calendars@[0]@ == "gregorian"@, o.calendars@[1]@ == "buddhist"@, o.calendars@[2]@ == "japanese"@, o.calendars@[3]@ == "ethiopian"@,
        o.calendars@[4]@ == "indian"@, o.calendars@[5]@ == "coptic"@, o.calendars@[6]@ == "iso"@,
    ensures opts_ok(o),
{}
pub open spec fn regof(l: Localiser) -> CommandRegistry { *l.command_registry }
pub open spec fn mm(t: Tree) -> M { run(tks(t.tokens@), t.tokens@.len() as int)->Some_0 }
pub open spec fn parsed(t: Tree) -> bool {
    &&& accepted(tks(t.tokens@)) && t.tokens@.len() <= usize::MAX
    &&& run(tks(t.tokens@), t.tokens@.len() as int) is Some && tree(nv(t.nodes@), mm(t))
    &&& mlim(mm(t), t.tokens@.len() as int) && forall|k: int| 0 <= k < mm(t).named.len() ==> complete(#[trigger] mm(t).named[k])
}
pub open spec fn shaped(t: Tree) -> bool {
    let n = nv(t.nodes@);
    let g = kids(n, 0)[1];
    &&& lim_parts(mm(t).main, t.tokens@.len() as int) && no_num(mm(t).main)
    &&& kids(n, 0).len() == (if mm(t).group { 2int } else { 1 })
    &&& !mm(t).group ==> mm(t).named.len() == 0
    &&& mm(t).group ==> grp_at(n, g, mm(t).named, n.len() as int) && g < n.len() && n[g as int].children is Some && kids(n, g).len() == mm(t).named.len()
    &&& kids(n, 0)[0] == 1 && n.len() > 1 && n[1].children is Some && kids(n, 1).len() == mm(t).main.len()
    &&& n[0].typ == NodeType::Root && n[0].children is Some
}
proof fn lemma_parsed(t: Tree)
    requires
        accepted(tks(t.tokens@)), t.tokens@.len() <= usize::MAX, run(tks(t.tokens@), t.tokens@.len() as int) is Some, tree(nv(t.nodes@), mm(t)),
    ensures parsed(t), shaped(t),
{
    lemma_main_names(tks(t.tokens@), t.tokens@.len() as int, mm(t));
    let n = nv(t.nodes@);
    lemma_str(n, 1, mm(t).main, 0, if mm(t).group { kids(n, 0)[1] as int } else { n.len() as int });
    if mm(t).group { lemma_grp(n, kids(n, 0)[1], mm(t).named, n.len() as int); }
}
proof fn lemma_main_kid(t: Tree, i: int)
    requires parsed(t), 0 <= i < mm(t).main.len(),
    ensures kid_is(nv(t.nodes@), kids(nv(t.nodes@), 1)[i], mm(t).main[i], t.tokens@.len() as int), !(mm(t).main[i] is Num),
{
    let n = nv(t.nodes@);
    lemma_kid(n, 1, mm(t).main, 0, if mm(t).group { kids(n, 0)[1] as int } else { n.len() as int }, i, t.tokens@.len() as int);
    reveal(no_num);
}
pub open spec fn grp_kids(t: Tree) -> Seq<usize> { kids(nv(t.nodes@), kids(nv(t.nodes@), 0)[1]) }
proof fn lemma_named_kid(t: Tree, k: int)
    requires parsed(t), mm(t).group, 0 <= k < mm(t).named.len(),
    ensures
        name_kid(nv(t.nodes@), grp_kids(t)[k], mm(t).named[k], next_of(grp_kids(t), k, t.nodes@.len() as int)),
        lim_parts(mm(t).named[k].parts->Some_0, t.tokens@.len() as int), mm(t).named[k].id->Some_0 < t.tokens@.len(),
        kids(nv(t.nodes@), grp_kids(t)[k])[1] < t.nodes@.len(), nv(t.nodes@)[kids(nv(t.nodes@), grp_kids(t)[k])[1] as int].children is Some,
        kids(nv(t.nodes@), kids(nv(t.nodes@), grp_kids(t)[k])[1]).len() == mm(t).named[k].parts->Some_0.len(),
{
    let n = nv(t.nodes@);
    assert(complete(mm(t).named[k]));
    lemma_name_kid(n, kids(n, 0)[1], mm(t).named, n.len() as int, k);
    assert(lim_named(mm(t).named[k], t.tokens@.len() as int));
    let j = grp_kids(t)[k];
    lemma_str(n, kids(n, j)[1], mm(t).named[k].parts->Some_0, j, next_of(grp_kids(t), k, n.len() as int));
}
// the pattern string t is acceptable
pub open spec fn good(t: Seq<Token>, reg: CommandRegistry) -> bool {
    accepted(tks(t)) && gram(t, t.len() as int) && valid_all(tks(t), run(tks(t), t.len() as int)->Some_0, reg)
}
pub open spec fn analysed(l: Result<Seq<Token>, LexerError>, loc: Localiser, tag: RefCount<LanguageTag>, r: Result<Formatter, FormatterError>) -> bool {
    let reg = *loc.command_registry;
    match l {
        Err(e) => r is Err && !(r->Err_0 is NoGrammar),
        Ok(t) => {
            &&& r is Err && r->Err_0 is NoGrammar <==> accepted(tks(t)) && !gram(t, t.len() as int)
            &&& r is Ok ==> good(t, reg)
            &&& good(t, reg) && no_cal_all(tks(t), run(tks(t), t.len() as int)->Some_0) ==> r is Ok
            &&& r is Ok ==> fmt_is(tks(t), r->Ok_0.patterns@, run(tks(t), t.len() as int)->Some_0, r->Ok_0.selectors@, reg)
        }
    }
}
@file crates/localiser/src/formatter.rs
@fn Formatter::try_new
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@spec
    ensures
        analysed(lexed(string@, localiser.grammar@, &localiser.icu_data_provider), *localiser, *language_tag, r), // [F01] [T03] [C03]
        r is Ok ==> wf_of(r->Ok_0.patterns@, r->Ok_0.selectors@, r->Ok_0.numbers@.len()), // [T01]
        r is Ok ==> r->Ok_0.language_tag == *language_tag && r->Ok_0.icu_language == icu_of(*localiser.language_registry, *language_tag), // [F04]
@entry
    let ghost mut rank = Ranks { name: |x: VpK| 0, sel: |s: int| 0 };
    let ghost input = string@;
    let ghost lx = lexed(input, localiser.grammar@, &localiser.icu_data_provider);
@before 0
    proof {
        lemma_parsed(tree);
        lemma_opts(option_selectors);
        lemma_prog_init(selectors@, patterns@);
        lemma_valid_zero(tks(tree.tokens@), mm(tree).main, Set::empty(), regof(*localiser), mm(tree).named, 0, selectors@);
    }
@loop 0
    invariant
        parsed(tree), mm(tree).group, opts_ok(option_selectors), lx == Ok::<Seq<Token>, LexerError>(tree.tokens@), lx == lexed(input, localiser.grammar@, &localiser.icu_data_provider),
        vp_it0.of() == grp_kids(tree), vp_it0.of().len() == mm(tree).named.len(), vp_it0.pos() <= vp_it0.of().len(),
        valid_named(tks(tree.tokens@), mm(tree).named, vp_it0.pos() as int, regof(*localiser)), // [F01]
        made(tks(tree.tokens@), mm(tree), patterns@, selectors@, Seq::empty(), mm(tree).main, 0, vp_it0.pos() as int, numbers@.len(), rank, regof(*localiser)), // [F01] [T03]
    ensures vp_it0.pos() == vp_it0.of().len(),
    decreases vp_it0.of().len() - vp_it0.pos(),
@head 0
    let ghost tk = tks(tree.tokens@);
    let ghost m = mm(tree);
    let ghost reg = regof(*localiser);
    let ghost k = vp_it0.pos() - 1;
    let ghost ps = m.named[k].parts->Some_0;
    let ghost p0 = patterns@;
    proof {
        lemma_named_kid(tree, k);
        lemma_named_next(tk, m.named, k, reg);
        lemma_named_dom(tk, patterns@, m.named, k, selectors@, reg);
        lemma_valid_zero(tk, ps, patterns@.dom(), reg, m.named, nums_all(m.named, k), selectors@);
    }
@loop 1
    invariant
        parsed(tree), mm(tree).group, opts_ok(option_selectors), lx == Ok::<Seq<Token>, LexerError>(tree.tokens@), lx == lexed(input, localiser.grammar@, &localiser.icu_data_provider),
        tk == tks(tree.tokens@), m == mm(tree), reg == regof(*localiser), 0 <= k < m.named.len(), ps == m.named[k].parts->Some_0,
        vp_it1.of() == kids(nv(tree.nodes@), kids(nv(tree.nodes@), grp_kids(tree)[k])[1]), vp_it1.of().len() == ps.len(), vp_it1.pos() <= ps.len(),
        patterns@.dom() == name_set(tk, m.named, k), patterns@ == p0,
        valid_upto(tk, ps, vp_it1.pos() as int, patterns@.dom(), reg), // [F01]
        made(tk, m, patterns@, selectors@, pattern@, ps, vp_it1.pos() as int, k, numbers@.len(), rank, reg), // [F01] [T03]
    ensures vp_it1.pos() == vp_it1.of().len(),
    decreases vp_it1.of().len() - vp_it1.pos(),
@head 1
    let ghost i = vp_it1.pos() - 1;
    let ghost v0 = pattern@;
    let ghost a0 = selectors@;
    let ghost n0 = numbers@.len();
    proof {
        lemma_named_kid(tree, k);
        lemma_kid(nv(tree.nodes@), kids(nv(tree.nodes@), grp_kids(tree)[k])[1], ps, grp_kids(tree)[k], next_of(grp_kids(tree), k, tree.nodes@.len() as int), i, tree.tokens@.len() as int);
        lemma_named_next(tk, m.named, k, reg);
        lemma_valid_next(tk, ps, i, patterns@.dom(), reg);
    }
@foot 1
    proof { rank = lemma_made(tk, m, patterns@, a0, selectors@, v0, pattern@.last(), ps, i, k, n0, rank, reg); }
@foot 0
    proof {
        let x = VpK::S(name_of(tk, m.named[k]));
        let pv = patterns@[x];
        lemma_named_insert(tk, p0, m.named, k, selectors@, reg, pv);
        lemma_prog_insert(p0, pv, selectors@, numbers@.len(), rank, k as nat, x);
        rank = rank_name(rank, x, k as nat);
        lemma_valid_zero(tk, m.main, Set::empty(), reg, m.named, nums_all(m.named, k + 1), selectors@);
    }
@before 2
    let ghost tk = tks(tree.tokens@);
    let ghost m = mm(tree);
    let ghost reg = regof(*localiser);
    let ghost k = m.named.len() as int;
    let ghost ps = m.main;
    proof {
        lemma_parsed(tree);
        lemma_opts(option_selectors);
        if !m.group { lemma_prog_init(selectors@, patterns@); }
        lemma_valid_zero(tk, ps, name_set(tk, m.named, k), reg, m.named, nums_all(m.named, k), selectors@);
        lemma_named_dom(tk, patterns@, m.named, k, selectors@, reg);
    }
@loop 2
    invariant
        parsed(tree), opts_ok(option_selectors), lx == Ok::<Seq<Token>, LexerError>(tree.tokens@), lx == lexed(input, localiser.grammar@, &localiser.icu_data_provider),
        tk == tks(tree.tokens@), m == mm(tree), reg == regof(*localiser), k == m.named.len(), ps == m.main,
        vp_it2.of() == kids(nv(tree.nodes@), 1), vp_it2.of().len() == ps.len(), vp_it2.pos() <= ps.len(),
        patterns@.dom() == name_set(tk, m.named, k), valid_named(tk, m.named, k, reg),
        valid_upto(tk, ps, vp_it2.pos() as int, patterns@.dom(), reg), // [F01]
        made(tk, m, patterns@, selectors@, pattern@, ps, vp_it2.pos() as int, k, numbers@.len(), rank, reg), // [F01] [T03]
    ensures vp_it2.pos() == vp_it2.of().len(),
    decreases vp_it2.of().len() - vp_it2.pos(),
@head 2
    let ghost i = vp_it2.pos() - 1;
    let ghost v0 = pattern@;
    let ghost a0 = selectors@;
    let ghost n0 = numbers@.len();
    proof {
        lemma_main_kid(tree, i);
        lemma_valid_next(tk, ps, i, patterns@.dom(), reg);
    }
@foot 2
    proof { rank = lemma_made(tk, m, patterns@, a0, selectors@, v0, pattern@.last(), ps, i, k, n0, rank, reg); }
@after 2
    proof {
        lemma_fmt(tk, patterns@, m, selectors@, reg, pattern);
        lemma_prog_insert(patterns@, pattern, selectors@, numbers@.len(), rank, k as nat, VpK::S("_"@));
        lemma_prog_wf(patterns@.insert(VpK::S("_"@), pattern), Seq::empty(), selectors@, numbers@.len(), rank_name(rank, VpK::S("_"@), k as nat), (k + 1) as nat);
    }
