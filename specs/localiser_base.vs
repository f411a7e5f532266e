@broadcast vp_axiom_from_same vp_axiom_from_provider vp_axiom_from_formatter vp_axiom_from_registry
@axioms
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_same(e: LocaliserError, r: LocaliserError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<LocaliserError, LocaliserError>(e, r) ==> r == e,
{}
// `?` converts errors with From: each wraps the error in the variant of its name
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_provider(e: ProviderError, r: LocaliserError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<LocaliserError, ProviderError>(e, r) ==> r == LocaliserError::Provider(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_formatter(e: FormatterError, r: LocaliserError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<LocaliserError, FormatterError>(e, r) ==> r == LocaliserError::Formatter(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_registry(e: RegistryError, r: LocaliserError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<LocaliserError, RegistryError>(e, r) ==> r == LocaliserError::Registry(e),
{}
@desugar-for
@prelude
impl VpKey for RefCount<LanguageTag> { open spec fn kv(&self) -> VpK { VpK::T((**self).tag@) } }
// ---- trusted: opaque collaborators -----------------------------------------------------------
#[verifier::external_body] pub struct IcuDataProvider { _p: u8 }
#[verifier::external_body] pub struct CommandRegistry { _p: u8 }
#[verifier::external_body] pub struct DataProvider { _p: u8 }
#[verifier::external_body] pub struct LocaleExpander { _p: u8 }
#[verifier::external_body] pub struct ScriptData { _p: u8 }
#[verifier::external_body] pub struct ProviderError { _p: u8 }
#[verifier::external_body] pub struct RegistryError { _p: u8 }
#[verifier::external_body] pub struct LanguageTagRegistry { _p: u8 }
#[verifier::external_body] pub struct DynLocalisationError { _p: u8 }
// only NoGrammar is told apart from the other formatter errors here
#[verifier::external_body] pub struct OtherFormatterError { _p: u8 }
pub enum FormatterError { NoGrammar, Other(OtherFormatterError) }
pub struct ComponentDetails { pub default: RefCount<LanguageTag> }
impl DataProvider { #[verifier::external_body] pub fn new() -> DataProvider { unimplemented!() } }
impl LocaleExpander { #[verifier::external_body] pub fn new_extended() -> LocaleExpander { unimplemented!() } }
impl DynLocalisationError {
    pub uninterp spec fn data(&self) -> LocalisationData;
    #[verifier::external_body]
    pub fn localisation_data(&self) -> (r: LocalisationData) ensures r == self.data() { unimplemented!() }
}
// registry (contract proved in unit registry)
pub uninterp spec fn tag_of(t: Seq<char>) -> Result<RefCount<LanguageTag>, RegistryError>;
impl LanguageTagRegistry {
    #[verifier::external_body]
    pub fn tag(&self, t: &str) -> (r: Result<RefCount<LanguageTag>, RegistryError>) ensures r == tag_of(t@) { unimplemented!() }
}
// script data of a language (ICU expander and the table of scripts)
pub uninterp spec fn script_of(t: Seq<char>) -> Option<ScriptData>;
#[verifier::external_body]
pub fn get_script_data(tag: &str, script_data: &DataProvider, expander: &LocaleExpander) -> (r: Option<ScriptData>) ensures r == script_of(tag@) { unimplemented!() }
// a repository that does not change
#[verifier::external_body]
pub struct Provider { _p: u8 }
impl Provider {
    pub uninterp spec fn lookup(&self, c: Seq<char>, i: Seq<char>, t: Seq<char>) -> Result<Option<(Seq<char>, RefCount<LanguageTag>)>, ProviderError>;
    pub uninterp spec fn details(&self, c: Seq<char>) -> Result<RefCount<ComponentDetails>, ProviderError>;
    #[verifier::external_body]
    pub fn string(&self, c: &str, i: &str, t: &RefCount<LanguageTag>) -> (r: Result<Option<(String, RefCount<LanguageTag>)>, ProviderError>)
        ensures match self.lookup(c@, i@, (**t).tag@) {
            Err(e) => r == Err::<Option<(String, RefCount<LanguageTag>)>, ProviderError>(e),
            Ok(None) => r is Ok && r->Ok_0 is None,
            Ok(Some((s, g))) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.0@ == s && r->Ok_0->Some_0.1 == g,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn component_details(&self, c: &str) -> (r: Result<RefCount<ComponentDetails>, ProviderError>) ensures r == self.details(c@) { unimplemented!() }
}
// abstract values of placeholders (texts by their characters)
pub enum PV { Text(Seq<char>), Localised(Seq<char>, RefCount<LanguageTag>), Other(PlaceholderValue) }
pub open spec fn pv(v: PlaceholderValue) -> PV {
    match v {
        PlaceholderValue::String(s) => PV::Text(s@),
        PlaceholderValue::Localised(s, t) => PV::Localised((*s)@, t),
        _ => PV::Other(v),
    }
}
pub open spec fn pvs(m: Map<VpK, PlaceholderValue>) -> Map<VpK, PV> { m.map_values(|v: PlaceholderValue| pv(v)) }
// formatter: what a pattern string of a language gives (contract of unit formatter: it depends on nothing else)
pub uninterp spec fn parse(p: Seq<char>, t: RefCount<LanguageTag>) -> Result<(), FormatterError>;
pub uninterp spec fn fmt(p: Seq<char>, t: RefCount<LanguageTag>, v: Map<VpK, PV>) -> Result<Seq<char>, FormatterError>;
#[verifier::external_body]
pub struct Formatter { _p: u8 }
impl Formatter {
    pub uninterp spec fn pattern(&self) -> Seq<char>;
    pub uninterp spec fn tag(&self) -> RefCount<LanguageTag>;
    #[verifier::external_body]
    pub fn try_new(l: &Localiser, p: &str, t: &RefCount<LanguageTag>) -> (r: Result<Formatter, FormatterError>)
        ensures
            r is Ok <==> parse(p@, *t) is Ok,
            r is Ok ==> r->Ok_0.pattern() == p@ && r->Ok_0.tag() == *t,
            r is Err ==> r->Err_0 == parse(p@, *t)->Err_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn format(&mut self, l: &Localiser, v: &HashMap<String, PlaceholderValue>) -> (r: Result<(String, &RefCount<LanguageTag>), FormatterError>)
        ensures
            fmt_is(old(self).pattern(), old(self).tag(), v@, r),
            final(self).pattern() == old(self).pattern(), final(self).tag() == old(self).tag(),
    { unimplemented!() }
}
pub open spec fn fmt_is(p: Seq<char>, t: RefCount<LanguageTag>, v: Map<VpK, PlaceholderValue>, r: Result<(String, &RefCount<LanguageTag>), FormatterError>) -> bool {
    match fmt(p, t, pvs(v)) {
        Err(e) => r == Err::<(String, &RefCount<LanguageTag>), FormatterError>(e),
        Ok(s) => r is Ok && r->Ok_0.0@ == s && *r->Ok_0.1 == t,
    }
}
// formatting through the cell of a cached formatter
#[verifier::external_body]
pub fn vp_cell_format<'a>(f: &'a Formatter, l: &Localiser, v: &HashMap<String, PlaceholderValue>) -> (r: Result<(String, &'a RefCount<LanguageTag>), FormatterError>)
    ensures fmt_is(f.pattern(), f.tag(), v@, r),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_replace<T>(c: &mut T, v: T) -> (r: T) ensures *final(c) == v, r == *old(c) { unimplemented!() }
#[verifier::external_body]
pub fn vp_clone_key(c: &CacheKey) -> (r: CacheKey) ensures r.kv() == c.kv() { unimplemented!() }
#[verifier::external_body]
pub fn vp_clone_script(c: &Option<ScriptData>) -> (r: Option<ScriptData>) ensures r == *c { unimplemented!() }
// iteration over a map: every entry once
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct MapIter<'a, K, V> { _p: &'a HashMap<K, V> }
impl<'a, K: VpKey, V> MapIter<'a, K, V> {
    pub uninterp spec fn of(&self) -> HashMap<K, V>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures
            final(self).of() == old(self).of(),
            old(self).pos() < old(self).of().order().len() ==> r is Some && r->Some_0.0.kv() == old(self).of().order()[old(self).pos() as int]
                && *r->Some_0.1 == old(self).of()@[old(self).of().order()[old(self).pos() as int]] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().order().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_into_iter<K: VpKey, V>(m: &HashMap<K, V>) -> (r: MapIter<'_, K, V>) ensures r.of() == *m, r.pos() == 0 { unimplemented!() }
// localisation data is a finite tree
pub uninterp spec fn height(d: LocalisationData) -> nat;
#[verifier::external_body]
pub proof fn axiom_height(d: LocalisationData)
    ensures forall|k: VpK| d.values is Some && (#[trigger] d.values->Some_0@.contains_key(k)) && d.values->Some_0@[k] is LocalisationData ==> height(d.values->Some_0@[k]->LocalisationData_0) < height(d),
{}
impl Clone for PlaceholderValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: PlaceholderValue) ensures pv(r) == pv(*self) { unimplemented!() }
}
@retype Box<dyn LocalisationProviderTrait> =>> Provider
@retype &impl LocalisationErrorTrait =>> &DynLocalisationError
@rewrite component.as_ref() =>> component
@rewrite identifier.as_ref() =>> identifier
@rewrite combined.clone() =>> vp_clone_key(&combined)
@rewrite binding.clone() =>> vp_clone_script(binding)
@provided get_script_data Localiser::localisation_provider Localiser::script_data Localiser::default_language
@file crates/utility/src/language.rs
@fn LanguageTag::as_str
    ensures r@ == self.tag@,
@file crates/localiser/src/error.rs
@item LocaliserError
@file crates/localiser/src/localiser.rs
@item Localiser
@item CacheKey
@item CacheData
@mid
// the conversions of error.rs, which `?` uses (same bodies)
impl vstd::std_specs::convert::FromSpecImpl<ProviderError> for LocaliserError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ProviderError) -> LocaliserError { LocaliserError::Provider(e) }
}
impl From<ProviderError> for LocaliserError { fn from(e: ProviderError) -> LocaliserError { LocaliserError::Provider(e) } }
impl vstd::std_specs::convert::FromSpecImpl<RegistryError> for LocaliserError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RegistryError) -> LocaliserError { LocaliserError::Registry(e) }
}
impl From<RegistryError> for LocaliserError { fn from(e: RegistryError) -> LocaliserError { LocaliserError::Registry(e) } }
impl vstd::std_specs::convert::FromSpecImpl<FormatterError> for LocaliserError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FormatterError) -> LocaliserError { LocaliserError::Formatter(e) }
}
impl From<FormatterError> for LocaliserError { fn from(e: FormatterError) -> LocaliserError { LocaliserError::Formatter(e) } }
// ---- specification ---------------------------------------------------------------------------
pub type Res = Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError>;
// what a request gives, by value
pub enum Out {
    Str(Seq<char>, RefCount<LanguageTag>),
    NotFound(Seq<char>, Seq<char>, Seq<char>, bool),
    Repository(ProviderError),
    Format(FormatterError),
    Internal,
}
pub open spec fn out(r: Res) -> Out {
    match r {
        Ok((s, t)) => Out::Str((*s)@, t),
        Err(LocaliserError::StringNotFound(c, i, t, f)) => Out::NotFound(c@, i@, t@, f),
        Err(LocaliserError::Provider(e)) => Out::Repository(e),
        Err(LocaliserError::Formatter(e)) => Out::Format(e),
        Err(_) => Out::Internal,
    }
}
// K02: the string of the requested language, else with fallback that of the default language
pub open spec fn resolve(p: Provider, c: Seq<char>, i: Seq<char>, t: Seq<char>, fallback: bool) -> Out {
    match p.lookup(c, i, t) {
        Err(e) => Out::Repository(e),
        Ok(Some((s, g))) => Out::Str(s, g),
        Ok(None) => if !fallback { Out::NotFound(c, i, t, false) } else {
            match p.details(c) {
                Err(e) => Out::Repository(e),
                Ok(d) => match p.lookup(c, i, (*(*d).default).tag@) {
                    Err(e) => Out::Repository(e),
                    Ok(Some((s, g))) => Out::Str(s, g),
                    Ok(None) => Out::NotFound(c, i, t, true),
                }
            }
        }
    }
}
// what formatting gives without caching
pub open spec fn format_out(p: Provider, c: Seq<char>, i: Seq<char>, v: Map<VpK, PV>, t: Seq<char>, fallback: bool) -> Out {
    match resolve(p, c, i, t, fallback) {
        Out::Str(s, g) => if s.len() == 0 { Out::Str(s, g) } else {
            match parse(s, g) {
                Err(FormatterError::NoGrammar) => Out::Str(s, g),
                Err(e) => Out::Format(e),
                Ok(_) => match fmt(s, g, v) { Ok(x) => Out::Str(x, g), Err(e) => Out::Format(e) },
            }
        },
        o => o,
    }
}
// a cache entry stands for exactly what is found without it
pub open spec fn entry_ok(p: Provider, t: Seq<char>, k: VpK, e: CacheData) -> bool {
    k is C && match (k->C_2, e) {
        (true, CacheData::Localised(s, g)) => resolve(p, k->C_0, k->C_1, t, k->C_3) == Out::Str((*s)@, g),
        (true, CacheData::Formatter(_)) => false,
        (false, CacheData::Localised(s, g)) => resolve(p, k->C_0, k->C_1, t, k->C_3) == Out::Str((*s)@, g)
            && ((*s)@.len() == 0 || parse((*s)@, g) == Err::<(), FormatterError>(FormatterError::NoGrammar)),
        (false, CacheData::Formatter(f)) => resolve(p, k->C_0, k->C_1, t, k->C_3) == Out::Str(f.pattern(), f.tag()) && f.pattern().len() > 0 && parse(f.pattern(), f.tag()) is Ok,
    }
}
pub open spec fn entries_ok(p: Provider, t: Seq<char>, m: Map<VpK, CacheData>) -> bool {
    forall|k: VpK| #[trigger] m.contains_key(k) ==> entry_ok(p, t, k, m[k])
}
pub open spec fn cache_ok(p: Provider, m: Map<VpK, HashMap<CacheKey, CacheData>>) -> bool {
    forall|t: VpK| #[trigger] m.contains_key(t) ==> t is T && entries_ok(p, t->T_0, m[t]@)
}
impl Localiser {
    pub open spec fn inv(&self) -> bool { cache_ok(self.localisation_provider, self.cached()) }
    pub open spec fn same_but_cache(&self, o: &Localiser) -> bool {
        &&& self.localisation_provider == o.localisation_provider
        &&& self.fallback == o.fallback && self.caching == o.caching && self.language_tag == o.language_tag
        &&& self.language_script_data == o.language_script_data
        &&& self.icu_data_provider == o.icu_data_provider && self.grammar == o.grammar && self.language_registry == o.language_registry
        &&& self.command_registry == o.command_registry && self.script_data == o.script_data && self.expander == o.expander
    }
}
// K04: nested localisation data (mark: triggers only)
pub open spec fn mark(k: VpK) -> bool { true }
pub open spec fn mark_map(v: Map<VpK, PV>) -> bool { true }
pub open spec fn data_out(p: Provider, d: LocalisationData, t: Seq<char>, fallback: bool, o: Out) -> bool
    decreases height(d), 2nat,
{
    if d.values is None { o == resolve(p, d.component@, d.identifier@, t, fallback) }
    else {
        // either a nested datum is an error, and its error is that of the whole
        ||| exists|k: VpK| #[trigger] mark(k) && nested_error(p, d, k, t, fallback, o)
        // or every nested datum has a string, and the whole is formatted with them
        ||| exists|v: Map<VpK, PV>| #[trigger] mark_map(v) && nested_values(p, d, v, t, fallback) && o == format_out(p, d.component@, d.identifier@, v, t, fallback)
    }
}
pub open spec fn nested_error(p: Provider, d: LocalisationData, k: VpK, t: Seq<char>, fallback: bool, o: Out) -> bool
    decreases height(d), 0nat,
{
    d.values is Some && d.values->Some_0@.contains_key(k) && d.values->Some_0@[k] is LocalisationData && !(o is Str)
        && height(d.values->Some_0@[k]->LocalisationData_0) < height(d)
        && data_out(p, d.values->Some_0@[k]->LocalisationData_0, t, fallback, o)
}
pub open spec fn nested_value(p: Provider, d: LocalisationData, k: VpK, x: PV, t: Seq<char>, fallback: bool) -> bool
    decreases height(d), 0nat,
{
    d.values is Some && d.values->Some_0@.contains_key(k) && match d.values->Some_0@[k] {
        PlaceholderValue::LocalisationData(inner) => x is Localised && height(inner) < height(d) && data_out(p, inner, t, fallback, Out::Str(x->Localised_0, x->Localised_1)),
        v => x == pv(v),
    }
}
pub open spec fn nested_values(p: Provider, d: LocalisationData, v: Map<VpK, PV>, t: Seq<char>, fallback: bool) -> bool
    decreases height(d), 1nat,
{
    d.values is Some && v.dom() == d.values->Some_0@.dom() && forall|k: VpK| #[trigger] v.contains_key(k) ==> nested_value(p, d, k, v[k], t, fallback)
}

proof fn lemma_nested_error(p: Provider, d: LocalisationData, k: VpK, t: Seq<char>, fallback: bool)
    requires d.values is Some, d.values->Some_0@.contains_key(k), d.values->Some_0@[k] is LocalisationData,
        height(d.values->Some_0@[k]->LocalisationData_0) < height(d),
    ensures
        forall|o: Out| #[trigger] data_out(p, d.values->Some_0@[k]->LocalisationData_0, t, fallback, o) && !(o is Str) ==> data_out(p, d, t, fallback, o),
        forall|s: Seq<char>, g: RefCount<LanguageTag>| #[trigger] data_out(p, d.values->Some_0@[k]->LocalisationData_0, t, fallback, Out::Str(s, g)) ==> nested_value(p, d, k, PV::Localised(s, g), t, fallback),
{
    assert forall|o: Out| #[trigger] data_out(p, d.values->Some_0@[k]->LocalisationData_0, t, fallback, o) && !(o is Str) implies data_out(p, d, t, fallback, o) by {
        reveal_with_fuel(data_out, 2); reveal_with_fuel(nested_error, 2);
        assert(mark(k) && nested_error(p, d, k, t, fallback, o));
    }
}
proof fn lemma_nested_values(p: Provider, d: LocalisationData, m: Map<VpK, PlaceholderValue>, t: Seq<char>, fallback: bool)
    requires d.values is Some, m.dom() == d.values->Some_0@.dom(),
        forall|k: VpK| #[trigger] m.contains_key(k) ==> nested_value(p, d, k, pv(m[k]), t, fallback),
    ensures data_out(p, d, t, fallback, format_out(p, d.component@, d.identifier@, pvs(m), t, fallback)),
{
    let v = pvs(m);
    assert(v.dom() =~= d.values->Some_0@.dom());
    reveal_with_fuel(data_out, 2); reveal_with_fuel(nested_values, 2);
    assert(mark_map(v) && nested_values(p, d, v, t, fallback));
}
proof fn lemma_order_step(o: Seq<VpK>, n: int)
    requires 0 <= n < o.len(),
    ensures o.to_set().contains(o[n]), forall|k: VpK| #[trigger] o.take(n + 1).contains(k) <==> o.take(n).contains(k) || k == o[n],
{
    assert(o.contains(o[n]));
    assert(o.take(n + 1) =~= o.take(n).push(o[n]));
    assert forall|k: VpK| #[trigger] o.take(n + 1).contains(k) <==> o.take(n).contains(k) || k == o[n] by {
        if k == o[n] { assert(o.take(n + 1)[n] == k); }
        if o.take(n).contains(k) { let i = choose|i: int| 0 <= i < n && #[trigger] o.take(n)[i] == k; assert(o.take(n + 1)[i] == k); }
        if o.take(n + 1).contains(k) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] o.take(n + 1)[i] == k; if i < n { assert(o.take(n)[i] == k); } }
    }
}

