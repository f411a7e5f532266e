@unit sync_registry
@features sync
@include common.vs
@header
@include map.vs
@include sync_cell.vs
@broadcast vp_axiom_from_parser
@axioms
// `?` converts errors with From (see the impl below)
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_parser(e: ParserError, r: RegistryError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<RegistryError, ParserError>(e, r) ==> r == RegistryError::LanguageIdentifier(e),
{}
@prelude
// ---- trusted: reference counted pointer with an identity ------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Shared<T> { _p: Vec<T> }
impl<T> Shared<T> {
    pub uninterp spec fn view(&self) -> T;
    // which allocation it points to
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Shared<T>) ensures r@ == x { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(x: &Shared<T>) -> (r: Shared<T>) ensures r == *x { unimplemented!() }
}
impl Shared<LanguageTag> {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@.tag@ { unimplemented!() }
    #[verifier::external_body]
    pub fn icu_language(&self) -> (r: IcuLanguage) requires self@.wf() ensures r.text() == self@.tag@ { unimplemented!() }
}
impl VpKey for Shared<LanguageTag> { open spec fn kv(&self) -> VpK { VpK::T(self@.tag@) } }
// ---- trusted: ICU language identifiers ------------------------------------------------------
// canonical form of a text, when ICU accepts it
pub uninterp spec fn canon(t: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn parse_error(t: Seq<char>) -> ParserError;
#[verifier::external_body]
pub proof fn axiom_canon_idempotent(t: Seq<char>)
    ensures canon(t) is Some ==> canon(canon(t)->Some_0) == canon(t),
{}
#[verifier::external_body]
#[derive(Debug)]
pub struct ParserError { _p: u8 }
pub enum RegistryError { LanguageIdentifier(ParserError) }
impl vstd::std_specs::convert::FromSpecImpl<ParserError> for RegistryError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParserError) -> RegistryError { RegistryError::LanguageIdentifier(e) }
}
impl From<ParserError> for RegistryError {
    fn from(e: ParserError) -> RegistryError { RegistryError::LanguageIdentifier(e) }
}
#[verifier::external_body]
pub struct IcuLanguage { _p: u8 }
impl IcuLanguage {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn canonicalize(t: &str) -> (r: Result<String, ParserError>)
        ensures r is Ok <==> canon(t@) is Some, r is Ok ==> Some(r->Ok_0@) == canon(t@), r is Err ==> r->Err_0 == parse_error(t@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from_bytes(t: &[u8]) -> (r: Result<IcuLanguage, ParserError>)
        ensures forall|s: Seq<char>| canon(s) is Some && #[trigger] bytes_of(s) == t@ ==> r is Ok && Some(r->Ok_0.text()) == canon(s)
    { unimplemented!() }
}
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vp_as_bytes(s: &String) -> (r: &[u8]) ensures r@ == bytes_of(s@) { unimplemented!() }
// Vec::from_iter(map.values().map(RefCount::clone))
#[verifier::external_body]
pub fn vp_values<K: VpKey, T>(m: &HashMap<K, Shared<T>>) -> (r: Vec<Shared<T>>) ensures r@ == m.value_list() { unimplemented!() }
// ---- trusted: the instance that the shared registry holds for a tag: the one that is put into the map first
// (one registry; chosen once for all, as the contracts show that no thread replaces or removes an instance)
pub uninterp spec fn inst(t: Seq<char>) -> Shared<LanguageTag>;
impl VpShared for Shared<LanguageTag> {
    open spec fn fits(k: VpK, v: Shared<LanguageTag>) -> bool {
        k is S && canon(k->S_0) is Some && v == inst(canon(k->S_0)->Some_0) && v@.tag@ == canon(k->S_0)->Some_0
    }
    open spec fn stays(a: Shared<LanguageTag>, b: Shared<LanguageTag>) -> bool { a == b }
}
impl VpShared for Shared<IcuLanguage> {
    open spec fn fits(k: VpK, v: Shared<IcuLanguage>) -> bool { k is T && v@.text() == k->T_0 }
    open spec fn stays(a: Shared<IcuLanguage>, b: Shared<IcuLanguage>) -> bool { true }
}
impl SharedMap<String, Shared<LanguageTag>> {
    pub open spec fn canonical(&self) -> bool { forall|k: VpK| #[trigger] self.v@.contains_key(k) ==> k is S && canon(k->S_0) == Some(k->S_0) }
    // the map of the canonical tags: as lock(), and an instance that is added now is that of the tag
    #[verifier::external_body]
    pub fn lock_tags(&mut self) -> (r: &mut HashMap<String, Shared<LanguageTag>>)
        requires old(self).kept(), old(self).canonical(),
        ensures
            all_fit(r@), grew(old(self).v@, r@),
            forall|k: VpK| #[trigger] r@.contains_key(k) ==> k is S && canon(k->S_0) == Some(k->S_0),
            forall|t: Seq<char>| final(r)@.contains_key(VpK::S(t)) && !r@.contains_key(VpK::S(t)) ==> final(r)@[VpK::S(t)] == #[trigger] inst(t),
            final(self).seen@ == r@,
            final(self).v == *final(r),
    { unimplemented!() }
    pub open spec fn outdated(&self) -> bool { forall|k: VpK| #[trigger] self.v@.contains_key(k) ==> k is S && canon(k->S_0) != Some(k->S_0) }
    // the map of the other spellings: as lock()
    #[verifier::external_body]
    pub fn lock_deprecated(&mut self) -> (r: &mut HashMap<String, Shared<LanguageTag>>)
        requires old(self).kept(), old(self).outdated(),
        ensures
            all_fit(r@), grew(old(self).v@, r@),
            forall|k: VpK| #[trigger] r@.contains_key(k) ==> k is S && canon(k->S_0) != Some(k->S_0),
            final(self).seen@ == r@,
            final(self).v == *final(r),
    { unimplemented!() }
}
@retype MutCell<HashMap<$K, $V>> =>> SharedMap<$K, $V>
@retype RefCount<$T> =>> Shared<$T>
@rewrite RefCount::clone($x) =>> Shared::clone($x)
@rewrite RefCount::new($x) =>> Shared::new($x)
@rewrite MutCell::new($x) =>> SharedMap::new($x)
@rewrite self.tags.lock().unwrap() =>> self.tags.lock_tags()
@rewrite self.deprecated.lock().unwrap() =>> self.deprecated.lock_deprecated()
@rewrite $x.lock().unwrap() =>> $x.lock()
@rewrite Vec::from_iter($m.values().map(RefCount::clone)) =>> vp_values($m)
@rewrite self.tag.as_bytes() =>> vp_as_bytes(&self.tag)
@file crates/utility/src/language.rs
@item LanguageTag
@item LanguageTagRegistry
@provided LanguageTag::as_str LanguageTag::icu_language
@mid
impl LanguageTag {
    // type invariant: the field is private and only the registry makes tags
    pub open spec fn wf(&self) -> bool { canon(self.tag@) == Some(self.tag@) }
}
impl LanguageTagRegistry {
    pub open spec fn inv(&self) -> bool { self.tags.kept() && self.tags.canonical() && self.deprecated.kept() && self.deprecated.outdated() && self.icu.kept() }
    pub open spec fn later(&self, o: &LanguageTagRegistry) -> bool {
        grew(o.tags.v@, self.tags.v@) && grew(o.deprecated.v@, self.deprecated.v@) && grew(o.icu.v@, self.icu.v@)
    }
}

@fn LanguageTag::as_str
    ensures r@ == self.tag@,
@fn LanguageTag::icu_language
    requires self.wf(),
    ensures r.text() == self.tag@,

@fn LanguageTagRegistry::new
    ensures r.inv(), r.tags.v@ == Map::<VpK, Shared<LanguageTag>>::empty(), r.deprecated.v@ == Map::<VpK, Shared<LanguageTag>>::empty(), // [Y02]
@fn LanguageTagRegistry::default
    ensures r.inv(), r.tags.v@ == Map::<VpK, Shared<LanguageTag>>::empty(), r.deprecated.v@ == Map::<VpK, Shared<LanguageTag>>::empty(), // [Y02]

@fn LanguageTagRegistry::tag
@mutself
@props Y02
@spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).later(old(self)), // [Y02]
        r is Ok <==> canon(language_tag@) is Some, // [Y02]
        r is Err ==> r->Err_0 == RegistryError::LanguageIdentifier(parse_error(language_tag@)), // [Y02]
        // every thread gets the one instance of the tag
        r is Ok ==> Some(r->Ok_0@.tag@) == canon(language_tag@) && r->Ok_0@.wf() && r->Ok_0 == inst(canon(language_tag@)->Some_0), // [Y02]
@entry
    proof { axiom_canon_idempotent(language_tag@); }

@fn LanguageTagRegistry::icu_language
@mutself
@props Y02
@spec
    requires old(self).inv(), language_tag@.wf(),
    ensures
        final(self).inv(), final(self).later(old(self)), // [Y02]
        r@.text() == language_tag@.tag@, // [Y02]

@fn LanguageTagRegistry::list
@mutself
@props Y02
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).later(old(self)), r@ == final(self).tags.v.value_list(), // [Y02]
@fn LanguageTagRegistry::list_deprecated
@mutself
@props Y02
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).later(old(self)), r@ == final(self).deprecated.v.value_list(), // [Y02]
@fn LanguageTagRegistry::list_all
@mutself
@props Y02
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).later(old(self)), r@ =~= final(self).tags.v.value_list() + final(self).deprecated.v.value_list(), // [Y02]

@tail
// two requests with the same canonical form give the same instance, on whichever threads and whatever is requested in between
pub fn theorem_y02_same_instance(g: &mut LanguageTagRegistry, a: &str, b: &str)
    requires old(g).inv(), canon(a@) is Some, canon(b@) == canon(a@),
{
    let x = g.tag(a);
    let y = g.tag(b);
    assert(x is Ok && y is Ok && x->Ok_0 == y->Ok_0);
}
