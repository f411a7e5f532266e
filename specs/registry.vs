@unit registry
@include common.vs
@header
@include map.vs
@broadcast vp_axiom_from_parser
@axioms
// `?` converts errors with From (see the impl below)
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_parser(e: ParserError, r: RegistryError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<RegistryError, ParserError>(e, r) ==> r == RegistryError::LanguageIdentifier(e),
{}
@prelude
// ---- trusted: reference counted pointer with an identity ------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Shared<T> { _p: Vec<T> }
impl<T> Shared<T> {
    pub uninterp spec fn view(&self) -> T;
    // which allocation it points to
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Shared<T>) ensures r@ == x { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(x: &Shared<T>) -> (r: Shared<T>) ensures r == *x { unimplemented!() }
}
impl Shared<LanguageTag> {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@.tag@ { unimplemented!() }
    #[verifier::external_body]
    pub fn icu_language(&self) -> (r: IcuLanguage) requires self@.wf() ensures r.text() == self@.tag@ { unimplemented!() }
}
impl VpKey for Shared<LanguageTag> { open spec fn kv(&self) -> VpK { VpK::T(self@.tag@) } }
// ---- trusted: ICU language identifiers ------------------------------------------------------
// canonical form of a text, when ICU accepts it
pub uninterp spec fn canon(t: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn parse_error(t: Seq<char>) -> ParserError;
#[verifier::external_body]
pub proof fn axiom_canon_idempotent(t: Seq<char>)
    ensures canon(t) is Some ==> canon(canon(t)->Some_0) == canon(t),
{}
#[verifier::external_body]
#[derive(Debug)]
pub struct ParserError { _p: u8 }
pub enum RegistryError { LanguageIdentifier(ParserError) }
impl vstd::std_specs::convert::FromSpecImpl<ParserError> for RegistryError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParserError) -> RegistryError { RegistryError::LanguageIdentifier(e) }
}
impl From<ParserError> for RegistryError {
    fn from(e: ParserError) -> RegistryError { RegistryError::LanguageIdentifier(e) }
}
#[verifier::external_body]
pub struct IcuLanguage { _p: u8 }
impl IcuLanguage {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn canonicalize(t: &str) -> (r: Result<String, ParserError>)
        ensures r is Ok <==> canon(t@) is Some, r is Ok ==> Some(r->Ok_0@) == canon(t@), r is Err ==> r->Err_0 == parse_error(t@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from_bytes(t: &[u8]) -> (r: Result<IcuLanguage, ParserError>)
        ensures forall|s: Seq<char>| canon(s) is Some && #[trigger] bytes_of(s) == t@ ==> r is Ok && Some(r->Ok_0.text()) == canon(s)
    { unimplemented!() }
}
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vp_as_bytes(s: &String) -> (r: &[u8]) ensures r@ == bytes_of(s@) { unimplemented!() }
// Vec::from_iter(map.values().map(RefCount::clone))
#[verifier::external_body]
pub fn vp_values<K: VpKey, T>(m: &HashMap<K, Shared<T>>) -> (r: Vec<Shared<T>>) ensures r@ == m.value_list() { unimplemented!() }
@retype MutCell<$T> =>> $T
@retype RefCount<$T> =>> Shared<$T>
@rewrite RefCount::clone($x) =>> Shared::clone($x)
@rewrite RefCount::new($x) =>> Shared::new($x)
@rewrite MutCell::new($x) =>> $x
@rewrite $x.borrow() =>> (&$x)
@rewrite $x.borrow_mut() =>> (&mut $x)
@rewrite Vec::from_iter($m.values().map(RefCount::clone)) =>> vp_values($m)
@rewrite self.tag.as_bytes() =>> vp_as_bytes(&self.tag)
@file crates/utility/src/language.rs
@item LanguageTag
@item LanguageTagRegistry
@provided LanguageTag::as_str LanguageTag::icu_language
@mid
impl LanguageTag {
    // type invariant: the field is private and only the registry makes tags
    pub open spec fn wf(&self) -> bool { canon(self.tag@) == Some(self.tag@) }
}
impl LanguageTagRegistry {
    pub open spec fn inv(&self) -> bool {
        &&& forall|k: VpK| #[trigger] self.tags@.contains_key(k) ==> k is S && k->S_0 == self.tags@[k]@.tag@ && canon(k->S_0) == Some(k->S_0)
        &&& forall|k: VpK| #[trigger] self.deprecated@.contains_key(k) ==> k is S && canon(k->S_0) is Some && canon(k->S_0) != Some(k->S_0)
            && self.tags@.contains_key(VpK::S(canon(k->S_0)->Some_0)) && self.deprecated@[k] == self.tags@[VpK::S(canon(k->S_0)->Some_0)]
        &&& forall|k: VpK| #[trigger] self.icu@.contains_key(k) ==> k is T && k->T_0 == self.icu@[k]@.text()
    }
}
pub open spec fn requested(m: Map<VpK, Shared<LanguageTag>>, t: Seq<char>) -> bool { m.contains_key(VpK::S(t)) }

@fn LanguageTag::as_str
    ensures r@ == self.tag@, // [R02]
@fn LanguageTag::icu_language
    requires self.wf(),
    ensures r.text() == self.tag@, // [R02]

@fn LanguageTagRegistry::new
    ensures r.inv(), r.tags@ == Map::<VpK, Shared<LanguageTag>>::empty(), r.deprecated@ == Map::<VpK, Shared<LanguageTag>>::empty(), // [R02]
@fn LanguageTagRegistry::default
    ensures r.inv(), r.tags@ == Map::<VpK, Shared<LanguageTag>>::empty(), r.deprecated@ == Map::<VpK, Shared<LanguageTag>>::empty(), // [R02]

@fn LanguageTagRegistry::tag
@mutself
@props R01 R02
@spec
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self).icu == old(self).icu,
        r is Ok <==> canon(language_tag@) is Some, // [R01]
        r is Ok ==> Some(r->Ok_0@.tag@) == canon(language_tag@) && r->Ok_0@.wf(), // [R01]
        r is Err ==> r->Err_0 == RegistryError::LanguageIdentifier(parse_error(language_tag@)) && final(self).tags@ == old(self).tags@ && final(self).deprecated@ == old(self).deprecated@, // [R01]
        // the shared instance is the registered one, and registered instances stay
        r is Ok ==> final(self).tags@.contains_key(VpK::S(canon(language_tag@)->Some_0)) && r->Ok_0 == final(self).tags@[VpK::S(canon(language_tag@)->Some_0)], // [R02]
        r is Ok && old(self).tags@.contains_key(VpK::S(canon(language_tag@)->Some_0)) ==> final(self).tags@ == old(self).tags@, // [R02]
        r is Ok && !old(self).tags@.contains_key(VpK::S(canon(language_tag@)->Some_0)) ==> final(self).tags@ == old(self).tags@.insert(VpK::S(canon(language_tag@)->Some_0), r->Ok_0), // [R02]
        r is Ok && canon(language_tag@) == Some(language_tag@) ==> final(self).deprecated@ == old(self).deprecated@, // [R02]
        r is Ok && canon(language_tag@) != Some(language_tag@) ==> final(self).deprecated@ == old(self).deprecated@.insert(VpK::S(language_tag@), r->Ok_0), // [R02]
@entry
    proof { axiom_canon_idempotent(language_tag@); }

@fn LanguageTagRegistry::icu_language
@mutself
@props R02
@spec
    requires old(self).inv(), language_tag@.wf(),
    ensures
        final(self).inv(), final(self).tags == old(self).tags, final(self).deprecated == old(self).deprecated,
        r@.text() == language_tag@.tag@, // [R02]

@fn LanguageTagRegistry::list
    ensures r@ == self.tags.value_list(), // [R02]
@fn LanguageTagRegistry::list_deprecated
    ensures r@ == self.deprecated.value_list(), // [R02]
@fn LanguageTagRegistry::list_all
    ensures r@ =~= self.tags.value_list() + self.deprecated.value_list(), // [R02]

@tail
// R01/R02 over a history: two requests with the same canonical form give the same instance, whatever is requested in between
pub fn theorem_r02_same_instance(g: &mut LanguageTagRegistry, a: &str, b: &str, c: &str)
    requires old(g).inv(), canon(a@) is Some, canon(b@) == canon(a@),
{
    let x = g.tag(a);
    let ghost g1 = *g;
    let _ = g.tag(c);
    let y = g.tag(b);
    assert(x is Ok && y is Ok && x->Ok_0 == y->Ok_0);
}
// the listing contains each canonical tag exactly once
pub proof fn theorem_r02_listing(g: &LanguageTagRegistry)
    requires g.inv(),
    ensures
        g.tags.value_list().len() == g.tags@.dom().len(),
        forall|i: int, j: int| 0 <= i < j < g.tags.value_list().len() ==> (#[trigger] g.tags.value_list()[i])@.tag@ != (#[trigger] g.tags.value_list()[j])@.tag@,
        forall|t: Seq<char>| g.tags@.contains_key(VpK::S(t)) ==> exists|i: int| 0 <= i < g.tags.value_list().len() && (#[trigger] g.tags.value_list()[i])@.tag@ == t,
        g.deprecated.value_list().len() == g.deprecated@.dom().len(),
{
    vp_axiom_order(&g.tags);
    vp_axiom_order(&g.deprecated);
    let o = g.tags.order();
    let l = g.tags.value_list();
    assert forall|i: int| 0 <= i < o.len() implies g.tags@.contains_key(#[trigger] o[i]) by { assert(o.to_set().contains(o[i])); }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i])@.tag@ != (#[trigger] l[j])@.tag@ by {
        assert(o[i] != o[j]);
        assert(g.tags@.contains_key(o[i]) && g.tags@.contains_key(o[j]));
    }
    assert forall|t: Seq<char>| g.tags@.contains_key(VpK::S(t)) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i])@.tag@ == t by {
        assert(o.to_set().contains(VpK::S(t)));
        let i = o.index_of(VpK::S(t));
        assert(o[i] == VpK::S(t));
        assert(l[i]@.tag@ == t);
    }
}
