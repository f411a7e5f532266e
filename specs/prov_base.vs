@include common.vs
@include map.vs
@include types.vs
@include db.vs
@broadcast vp_axiom_from_same vp_axiom_from_registry
@axioms
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_same(e: ProviderError, r: ProviderError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ProviderError, ProviderError>(e, r) ==> r == e,
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_registry(e: RegistryError, r: ProviderError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ProviderError, RegistryError>(e, r) ==> r == ProviderError::LanguageTagRegistry(e),
{}
@mid
impl vstd::std_specs::convert::FromSpecImpl<RegistryError> for ProviderError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RegistryError) -> ProviderError { ProviderError::LanguageTagRegistry(e) }
}
impl From<RegistryError> for ProviderError { fn from(e: RegistryError) -> ProviderError { ProviderError::LanguageTagRegistry(e) } }
// ---- the texts of the queries ------------------------------------------------------------------
pub open spec fn q_pattern(one: bool, exact: bool) -> Seq<char> {
    let a = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND "@;
    let b = if exact { a + "languageTag = ?2"@ } else { a + "( languageTag LIKE ?2 OR languageTag LIKE ?2 || '-%' )"@ };
    let c = b + " AND component = ?3"@;
    if one { c + " ORDER BY length( languageTag ) LIMIT 1"@ } else { c }
}
pub open spec fn q_languages() -> Seq<char> { "SELECT DISTINCT languageTag FROM contributor WHERE component = ?1"@ }
pub open spec fn q_identifier() -> Seq<char> { "SELECT languageTag FROM pattern WHERE identifier = ?1 AND component = ?2"@ }
pub open spec fn q_contributors() -> Seq<char> { "SELECT DISTINCT contributor FROM contributor WHERE languageTag = ?1 AND component = ?2"@ }
pub open spec fn q_count() -> Seq<char> { "SELECT count( * ) FROM pattern WHERE languageTag = ?1 AND component = ?2"@ }
pub open spec fn q_default() -> Seq<char> { "SELECT languageTag FROM component WHERE identifier = ?1"@ }
// which query is kept under which key
pub open spec fn query_for(k: Seq<char>, q: Seq<char>) -> bool {
    k.len() > 0 ==> {
        &&& k[0] == 'L' ==> q == q_languages()
        &&& k[0] == 'I' ==> q == q_identifier()
        &&& k[0] == 'C' && k.len() > 2 && k[2] == 'n' ==> q == q_contributors()
        &&& k[0] == 'C' && k.len() > 2 && k[2] == 'u' ==> q == q_count()
        &&& k[0] == 'D' ==> q == q_default()
        &&& k[0] == 'P' ==> q == q_pattern(k.last() == 'e', k.len() > 7 && k[7] == 'E')
    }
}
// ---- specification ---------------------------------------------------------------------------------
pub open spec fn aio() -> VpK { VpK::S("__all_in_one__"@) }
impl LocalisationProviderSqlite3 {
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: VpK| #[trigger] self.components@.contains_key(k) && self.components@[k].0 ==> self.connections@.contains_key(aio())
        &&& forall|k: VpK| #[trigger] self.components@.contains_key(k) && self.components@[k].1 ==> self.connections@.contains_key(k)
        &&& forall|k: VpK| #[trigger] self.connections@.contains_key(k) ==> self.connections@[k].1@ == "1.0"@
    }
    pub open spec fn known(&self, c: Seq<char>) -> bool { self.components@.contains_key(VpK::S(c)) }
    // the component is in the all-in-one file, has its own file
    pub open spec fn in_aio(&self, c: Seq<char>) -> bool { self.known(c) && self.components@[VpK::S(c)].0 }
    pub open spec fn in_own(&self, c: Seq<char>) -> bool { self.known(c) && self.components@[VpK::S(c)].1 }
    pub open spec fn has(&self, c: Seq<char>, all_in_one: bool) -> bool { (all_in_one && self.in_aio(c)) || self.in_own(c) }
    pub open spec fn file(&self, c: Seq<char>, all_in_one: bool) -> Connection { if all_in_one && self.in_aio(c) { self.aio_file() } else { self.own_file(c) } }
}
// every tag of the file is a language tag, and SQLite has no error
pub open spec fn good(conn: Connection) -> bool {
    conn.readable() && forall|r: PatRow| #[trigger] conn.patterns().contains(r) ==> tag_of(r.tag) is Ok
}
@file crates/utility/src/language.rs
@fn LanguageTag::as_str
    ensures r@ == self.tag@,
@file crates/provider/sqlite3/src/provider.rs
@item LocalisationProviderSqlite3
