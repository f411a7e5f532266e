@prelude
// ---- trusted: a repository file is its tables; SQLite answers the provider's queries from them -------
impl VpKey for RefCount<LanguageTag> { open spec fn kv(&self) -> VpK { VpK::T((**self).tag@) } }
pub struct PatRow { pub identifier: Seq<char>, pub component: Seq<char>, pub tag: Seq<char>, pub text: Seq<char> }
pub struct ConRow { pub component: Seq<char>, pub tag: Seq<char>, pub contributor: Seq<char> }
pub struct CompRow { pub identifier: Seq<char>, pub tag: Seq<char> }
pub enum Cell { Text(Seq<char>), Int(nat), Null }
pub type Cells = Seq<Cell>;
#[verifier::external_body] pub struct Connection { _p: u8 }
#[verifier::external_body] pub struct Sqlite3Error { _p: u8 }
#[verifier::external_body] pub struct RegistryError { _p: u8 }
#[verifier::external_body] pub struct Statement<'a> { _p: &'a u8 }
#[verifier::external_body] pub struct Rows { _p: u8 }
#[verifier::external_body] pub struct Row { _p: u8 }
impl Connection {
    pub uninterp spec fn patterns(&self) -> Seq<PatRow>;
    pub uninterp spec fn contributors(&self) -> Seq<ConRow>;
    pub uninterp spec fn components(&self) -> Seq<CompRow>;
    // SQLite reports no error for this file
    pub uninterp spec fn readable(&self) -> bool;
    #[verifier::external_body]
    pub fn prepare_cached<'a>(&'a self, q: &str) -> (r: Result<Statement<'a>, Sqlite3Error>)
        ensures self.readable() ==> r is Ok, r is Ok ==> r->Ok_0.of() == *self && r->Ok_0.text() == q@,
    { unimplemented!() }
}
// the rows SQLite gives for a query and its parameters
pub uninterp spec fn sql(c: Connection, q: Seq<char>, p: Seq<Seq<char>>) -> Seq<Cells>;
impl<'a> Statement<'a> {
    pub uninterp spec fn of(&self) -> Connection;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn query<const N: usize>(&mut self, p: [&str; N]) -> (r: Result<Rows, Sqlite3Error>)
        ensures
            final(self).of() == old(self).of(), final(self).text() == old(self).text(),
            old(self).of().readable() ==> r is Ok,
            r is Ok ==> r->Ok_0.of() == old(self).of() && r->Ok_0.at() == 0 && r->Ok_0.all() == sql(old(self).of(), old(self).text(), Seq::new(N as nat, |i: int| p@[i]@)),
            r is Ok && N == 0 ==> r->Ok_0.all() == sql(old(self).of(), old(self).text(), Seq::empty()),
    { unimplemented!() }
}
impl Rows {
    pub uninterp spec fn of(&self) -> Connection;
    pub uninterp spec fn all(&self) -> Seq<Cells>;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<Option<&Row>, Sqlite3Error>)
        ensures
            final(self).of() == old(self).of(), final(self).all() == old(self).all(), old(self).at() <= old(self).all().len() ==> final(self).at() <= final(self).all().len(),
            old(self).of().readable() ==> r is Ok,
            r is Ok && old(self).at() < old(self).all().len() ==> r->Ok_0 is Some && r->Ok_0->Some_0.cells() == old(self).all()[old(self).at() as int] && final(self).at() == old(self).at() + 1,
            r is Ok && old(self).at() >= old(self).all().len() ==> r->Ok_0 is None && final(self).at() == old(self).at(),
    { unimplemented!() }
}
pub trait VpFromSql: Sized { spec fn from_cell(c: Cell, r: Self) -> bool; spec fn fits(c: Cell) -> bool; }
impl VpFromSql for String {
    open spec fn from_cell(c: Cell, r: String) -> bool { c == Cell::Text(r@) }
    open spec fn fits(c: Cell) -> bool { c is Text }
}
impl VpFromSql for usize {
    open spec fn from_cell(c: Cell, r: usize) -> bool { c == Cell::Int(r as nat) }
    open spec fn fits(c: Cell) -> bool { c is Int && c->Int_0 <= usize::MAX }
}
impl Row {
    pub uninterp spec fn cells(&self) -> Cells;
    #[verifier::external_body]
    pub fn get<T: VpFromSql>(&self, i: usize) -> (r: Result<T, Sqlite3Error>)
        ensures r is Ok <==> i < self.cells().len() && T::fits(self.cells()[i as int]), r is Ok ==> T::from_cell(self.cells()[i as int], r->Ok_0),
    { unimplemented!() }
}
// registry (contract of unit registry): the canonical form of a tag
pub uninterp spec fn tag_of(t: Seq<char>) -> Result<RefCount<LanguageTag>, RegistryError>;
#[verifier::external_body] pub struct LanguageTagRegistry { _p: u8 }
impl LanguageTagRegistry {
    #[verifier::external_body]
    pub fn tag(&self, t: &str) -> (r: Result<RefCount<LanguageTag>, RegistryError>) ensures r == tag_of(t@) { unimplemented!() }
}
// ---- trusted: cells of the provider. Entries are only ever added: what a cell has at one moment it has later ----
// (moments are a ghost clock; the code itself is unchanged by it)
#[verifier::external_body]
pub fn vp_clock() -> Ghost<int> { unimplemented!() }
#[verifier::external_body] pub struct QueryCell { _p: u8 }
impl QueryCell {
    pub uninterp spec fn has(&self, k: Seq<char>, now: int) -> bool;
    #[verifier::external_body]
    pub fn vp_borrow(&self, now: Ghost<int>) -> (r: &HashMap<String, String>)
        ensures
            forall|k: Seq<char>| self.has(k, now@) ==> #[trigger] r@.contains_key(VpK::S(k)),
            forall|k: Seq<char>| #[trigger] r@.contains_key(VpK::S(k)) ==> query_for(k, r@[VpK::S(k)]@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_insert(&self, k: String, v: String, now: Ghost<int>) -> (r: Ghost<int>)
        requires query_for(k@, v@), // [?]
        ensures self.has(k@, r@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_cloned(x: Option<&String>) -> (r: Option<String>)
    ensures r is Some <==> x is Some, r is Some ==> r->Some_0@ == x->Some_0@,
{ unimplemented!() }
// str::rsplit_once
pub open spec fn parent(t: Seq<char>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if t[n - 1] == '-' { t.take(n - 1) } else { parent(t, n - 1) }
}
pub open spec fn parent_of(t: Seq<char>) -> Seq<char> { parent(t, t.len() as int) }
#[verifier::external_body]
pub fn vp_rsplit_once<'a>(s: &'a String, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some <==> s@.contains(c), r is Some && c == '-' ==> r->Some_0.0@ == parent_of(s@),
{ unimplemented!() }
#[verifier::external_body] pub struct DynError { _p: u8 }
#[verifier::external_body] pub struct IoError { _p: u8 }
#[verifier::external_body] pub struct PathBuf { _p: u8 }
#[verifier::external_body]
pub fn vp_dyn(e: ProviderSqlite3Error) -> DynError { unimplemented!() }
@retype MutCell<HashMap<String, String>> =>> QueryCell
@retype RefCount<Box<dyn ProviderErrorTrait>> =>> DynError
@rewrite RefCount::new(Box::new($x)) =>> vp_dyn($x)
@rewrite $x.cloned() =>> vp_cloned($x)
@rewrite $x.rsplit_once($c) =>> vp_rsplit_once(&$x, $c)
@rewrite $x.as_ref().tag($y) =>> $x.tag($y)
@file crates/provider/core/src/error.rs
@item ProviderError
@file crates/provider/sqlite3/src/error.rs
@item ProviderSqlite3Error
@item SchemaError
@file crates/provider/core/src/provider.rs
@item IdentifierDetails
@item ComponentDetails
@item LanguageData
@item RepositoryDetails
