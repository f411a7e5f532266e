@broadcast vp_axiom_from_sqlite vp_axiom_from_same_schema vp_axiom_from_io vp_axiom_from_sqlite3 vp_axiom_from_schema
@axioms
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_sqlite(e: Sqlite3Error, r: SchemaError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<SchemaError, Sqlite3Error>(e, r) ==> r is Sqlite3,
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_same_schema(e: SchemaError, r: SchemaError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<SchemaError, SchemaError>(e, r) ==> r == e,
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_io(e: IoError, r: ProviderSqlite3Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ProviderSqlite3Error, IoError>(e, r) ==> r is Io,
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_sqlite3(e: Sqlite3Error, r: ProviderSqlite3Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ProviderSqlite3Error, Sqlite3Error>(e, r) ==> r is Sqlite3,
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_schema(e: SchemaError, r: ProviderSqlite3Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ProviderSqlite3Error, SchemaError>(e, r) ==> r == ProviderSqlite3Error::SchemaInvalid(e),
{}
@desugar-for
@prelude
// ---- trusted: iterators ------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIter<'a, T> { _p: &'a Vec<T> }
impl<'a, T> VpIter<'a, T> {
    pub uninterp spec fn of(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).of() == old(self).of(),
            old(self).pos() < old(self).of().len() ==> r is Some && *r->Some_0 == old(self).of()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
pub trait VpInto: Sized { type I; spec fn starts(self, r: Self::I) -> bool; fn go(self) -> (r: Self::I) ensures self.starts(r); }
impl<'a, T> VpInto for &'a Vec<T> {
    type I = VpIter<'a, T>;
    open spec fn starts(self, r: VpIter<'a, T>) -> bool { r.of() == self@ && r.pos() == 0 }
    #[verifier::external_body]
    fn go(self) -> (r: VpIter<'a, T>) { unimplemented!() }
}
// ---- trusted: a directory is a list of entries, a path has a stem and an extension, a file opens or not -----
#[verifier::external_body] pub struct OsStr { _p: u8 }
impl OsStr {
    // None: not unicode
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> self.text() is Some, r is Some ==> r->Some_0@ == self.text()->Some_0 { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_os_eq(a: &OsStr, b: &str) -> (r: bool) ensures r == (a.text() == Some(b@)) { unimplemented!() }
impl PathBuf {
    pub uninterp spec fn a_dir(&self) -> bool;
    pub uninterp spec fn listing(&self) -> Option<Seq<Result<DirEntry, IoError>>>;
    pub uninterp spec fn ext(&self) -> Option<OsStr>;
    pub uninterp spec fn stem(&self) -> OsStr;
    // the file as a database, if SQLite can open it
    pub uninterp spec fn db(&self) -> Option<Connection>;
    // SQLite does not take the path for an URI (it does if it starts with `file:`)
    pub uninterp spec fn plain(&self) -> bool;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.a_dir() { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures r is Some <==> self.ext() is Some, r is Some ==> *r->Some_0 == self.ext()->Some_0 { unimplemented!() }
    // a path with an extension has a stem
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures self.ext() is Some ==> r is Some, r is Some ==> *r->Some_0 == self.stem() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_dir(&self) -> (r: Result<ReadDir, IoError>) ensures r is Ok <==> self.listing() is Some, r is Ok ==> r->Ok_0.of() == self.listing()->Some_0 && r->Ok_0.pos() == 0 { unimplemented!() }
}
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub struct DirEntry { _p: u8 }
impl DirEntry {
    pub uninterp spec fn at(&self) -> PathBuf;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r == self.at() { unimplemented!() }
}
#[verifier::external_body] pub struct ReadDir { _p: u8 }
impl ReadDir {
    pub uninterp spec fn of(&self) -> Seq<Result<DirEntry, IoError>>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<DirEntry, IoError>>)
        ensures
            final(self).of() == old(self).of(),
            old(self).pos() < old(self).of().len() ==> r is Some && r->Some_0 == old(self).of()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
impl VpInto for ReadDir {
    type I = ReadDir;
    open spec fn starts(self, r: ReadDir) -> bool { r == self }
    fn go(self) -> (r: ReadDir) { self }
}
// the conversion of the argument into a path
pub uninterp spec fn path_of<T>(x: T) -> Option<PathBuf>;
#[verifier::external_body]
pub fn vp_path<T>(x: T) -> (r: Result<PathBuf, ()>) ensures r is Ok <==> path_of(x) is Some, r is Ok ==> Some(r->Ok_0) == path_of(x) { unimplemented!() }
#[verifier::external_body]
pub fn vp_open_file(p: PathBuf) -> (r: Result<Connection, Sqlite3Error>) ensures p.plain() ==> (r is Ok <==> p.db() is Some) && (r is Ok ==> Some(r->Ok_0) == p.db()) { unimplemented!() }
// the same file, by a path that starts with `.` or `/`
#[verifier::external_body]
pub fn vp_here(p: PathBuf) -> (r: PathBuf) ensures r.plain(), r.db() == p.db(), r.ext() == p.ext(), r.stem() == p.stem() { unimplemented!() }
impl<K: VpKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: VpK| !self@.contains_key(k)) { unimplemented!() }
}
impl QueryCell {
    #[verifier::external_body]
    pub fn new(x: HashMap<String, String>) -> QueryCell { unimplemented!() }
}
pub fn vp_into_iter<X: VpInto>(x: X) -> (r: X::I) ensures x.starts(r) { x.go() }
// ---- trusted: reading an optional cell, and a number of any kind --------------------------------
impl VpFromSql for f64 {
    uninterp spec fn from_cell(c: Cell, r: f64) -> bool;
    uninterp spec fn fits(c: Cell) -> bool;
}
impl<T: VpFromSql> VpFromSql for Option<T> {
    open spec fn from_cell(c: Cell, r: Option<T>) -> bool { if c is Null { r is None } else { r is Some && T::from_cell(c, r->Some_0) } }
    open spec fn fits(c: Cell) -> bool { c is Null || T::fits(c) }
}
impl Connection {
    pub uninterp spec fn file_path(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn prepare<'a>(&'a self, q: &str) -> (r: Result<Statement<'a>, Sqlite3Error>)
        ensures self.readable() ==> r is Ok, r is Ok ==> r->Ok_0.of() == *self && r->Ok_0.text() == q@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: Option<&str>)
        ensures r is Some <==> self.file_path() is Some, r is Some ==> r->Some_0@ == self.file_path()->Some_0,
    { unimplemented!() }
}
// comparison with a default value of a column: no column has one, so the result is of no concern
#[verifier::external_body]
pub fn vp_differs<T>(a: Option<T>, b: T) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vp_text<T>(a: T) -> String { unimplemented!() }
@rewrite $a.is_none() || $b != Some($c) =>> vp_differs($a, $c)
@rewrite value.to_string() =>> vp_text(value)
@rewrite directory_path.try_into() =>> vp_path(directory_path)
@rewrite PathBuf::from(".").join($p) =>> vp_here($p)
@rewrite $a == "sqlite3" =>> vp_os_eq($a, "sqlite3")
@rewrite $a.cmp($b) == Ordering::Equal =>> vp_str_eq($a, $b)
@rewrite MutCell::new($x) =>> QueryCell::new($x)
@rewrite if let std::collections::hash_map::Entry::Vacant($e) = $m.entry($k) { $e.insert($v); } else $b =>> if !$m.contains_key(&$k) { $m.insert($k, $v); } else $b
@rewrite $x.unwrap_or_default() =>> vp_or_empty($x)
@mid
#[verifier::external_body]
pub fn vp_or_empty<'a>(x: Option<&'a str>) -> (r: &'a str) ensures r@ == (if x is Some { x->Some_0@ } else { Seq::<char>::empty() }) { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<Sqlite3Error> for SchemaError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Sqlite3Error) -> SchemaError { SchemaError::Sqlite3(RefCount::new(e)) }
}
impl From<Sqlite3Error> for SchemaError { fn from(error: Sqlite3Error) -> SchemaError { SchemaError::Sqlite3(RefCount::new(error)) } }
impl vstd::std_specs::convert::FromSpecImpl<Sqlite3Error> for ProviderSqlite3Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Sqlite3Error) -> ProviderSqlite3Error { ProviderSqlite3Error::Sqlite3(RefCount::new(e)) }
}
impl From<Sqlite3Error> for ProviderSqlite3Error { fn from(error: Sqlite3Error) -> ProviderSqlite3Error { ProviderSqlite3Error::Sqlite3(RefCount::new(error)) } }
impl vstd::std_specs::convert::FromSpecImpl<IoError> for ProviderSqlite3Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> ProviderSqlite3Error { ProviderSqlite3Error::Io(RefCount::new(e)) }
}
impl From<IoError> for ProviderSqlite3Error { fn from(error: IoError) -> ProviderSqlite3Error { ProviderSqlite3Error::Io(RefCount::new(error)) } }
impl vstd::std_specs::convert::FromSpecImpl<SchemaError> for ProviderSqlite3Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: SchemaError) -> ProviderSqlite3Error { ProviderSqlite3Error::SchemaInvalid(e) }
}
impl From<SchemaError> for ProviderSqlite3Error { fn from(error: SchemaError) -> ProviderSqlite3Error { ProviderSqlite3Error::SchemaInvalid(error) } }
// ---- trusted: what SQLite answers about the schema of a file --------------------------------------
pub open spec fn no_params() -> Seq<Seq<char>> { Seq::empty() }
// the names of the tables; the columns of a table, numbered from 0, as number, name, type, not null, default, primary key
pub open spec fn tables(c: Connection) -> Seq<Cells> { sql(c, "SELECT name FROM pragma_table_list;"@, no_params()) }
pub open spec fn versions(c: Connection) -> Seq<Cells> { sql(c, "SELECT value FROM metadata WHERE key = 'schema_version';"@, no_params()) }
pub enum Tab { Contributor, Language, Pattern, Component, LanguageData }
pub open spec fn q_info(t: Tab) -> Seq<char> {
    match t {
        Tab::Contributor => "SELECT * FROM pragma_table_info('contributor');"@,
        Tab::Language => "SELECT * FROM pragma_table_info('language');"@,
        Tab::Pattern => "SELECT * FROM pragma_table_info('pattern');"@,
        Tab::Component => "SELECT * FROM pragma_table_info('component');"@,
        Tab::LanguageData => "SELECT * FROM pragma_table_info('languageData');"@,
    }
}
pub open spec fn info(c: Connection, t: Tab) -> Seq<Cells> { sql(c, q_info(t), no_params()) }
#[verifier::external_body]
pub proof fn axiom_schema(c: Connection)
    ensures axioms_of(c),
{}
pub open spec fn axioms_of(c: Connection) -> bool {
    &&& forall|t: Tab| (#[trigger] info(c, t)).len() <= 32767
    &&& forall|t: Tab, i: int| 0 <= i < info(c, t).len() ==> col_cells(#[trigger] info(c, t)[i], i)
    &&& forall|i: int| 0 <= i < tables(c).len() ==> (#[trigger] tables(c)[i]).len() == 1 && tables(c)[i][0] is Text
    &&& forall|i: int| 0 <= i < versions(c).len() ==> (#[trigger] versions(c)[i]).len() == 1
}
pub open spec fn col_cells(x: Cells, i: int) -> bool {
    x.len() == 6 && x[0] == Cell::Int(i as nat) && x[1] is Text && x[2] is Text && x[3] is Int && x[3]->Int_0 <= 1 && x[5] is Int && x[5]->Int_0 <= 32767
}
// ---- specification: the schema of version 1.0 ------------------------------------------------------
pub struct Col { pub name: Seq<char>, pub kind: Seq<char>, pub notnull: nat, pub pk: nat }
pub open spec fn col(name: Seq<char>, kind: Seq<char>, notnull: nat, pk: nat) -> Col { Col { name, kind, notnull, pk } }
pub open spec fn col_ok(cells: Cells, c: Col) -> bool {
    &&& cells[1] == Cell::Text(c.name)
    &&& cells[2] == Cell::Text(c.kind)
    &&& cells[3] == Cell::Int(c.notnull)
    &&& cells[5] == Cell::Int(c.pk)
    &&& cells[4] is Null
}
pub open spec fn contributor_cols() -> Seq<Col> { seq![col("rowID"@, "INTEGER"@, 1, 1), col("component"@, "TEXT"@, 1, 0), col("languageTag"@, "TEXT"@, 1, 0), col("contributor"@, "TEXT"@, 1, 0), col("substituteFor"@, "TEXT"@, 0, 0), col("comment"@, "TEXT"@, 0, 0), col("verified"@, "DATE"@, 0, 0)] }
pub open spec fn language_cols() -> Seq<Col> { seq![col("rowID"@, "INTEGER"@, 1, 1), col("tag"@, "TEXT"@, 1, 0), col("englishName"@, "TEXT"@, 0, 0), col("added"@, "DATE"@, 1, 0)] }
pub open spec fn pattern_cols() -> Seq<Col> { seq![col("rowID"@, "INTEGER"@, 1, 1), col("component"@, "TEXT"@, 1, 0), col("identifier"@, "TEXT"@, 1, 0), col("languageTag"@, "TEXT"@, 1, 0), col("string"@, "TEXT"@, 1, 0), col("comment"@, "TEXT"@, 0, 0), col("verified"@, "DATE"@, 0, 0)] }
pub open spec fn component_cols() -> Seq<Col> { seq![col("rowID"@, "INTEGER"@, 1, 1), col("identifier"@, "TEXT"@, 1, 0), col("languageTag"@, "TEXT"@, 1, 0), col("comment"@, "TEXT"@, 0, 0), col("added"@, "DATE"@, 1, 0)] }
pub open spec fn data_cols() -> Seq<Col> { seq![col("rowID"@, "INTEGER"@, 1, 1), col("component"@, "TEXT"@, 1, 0), col("languageTag"@, "TEXT"@, 1, 0), col("count"@, "INTEGER"@, 1, 0), col("ratio"@, "REAL"@, 1, 0)] }
// the first n columns of the file are as required
pub open spec fn cols_ok(rows: Seq<Cells>, cols: Seq<Col>, n: int) -> bool { forall|i: int| 0 <= i < n && i < cols.len() ==> col_ok(#[trigger] rows[i], cols[i]) }
pub open spec fn table_ok(rows: Seq<Cells>, cols: Seq<Col>) -> bool { rows.len() >= cols.len() && cols_ok(rows, cols, rows.len() as int) }
pub open spec fn has_table(rows: Seq<Cells>, n: int, t: Seq<char>) -> bool { exists|i: int| 0 <= i < n && #[trigger] rows[i][0] == Cell::Text(t) }
pub open spec fn lists(v: Seq<String>, n: int, t: Seq<char>) -> bool { exists|i: int| 0 <= i < n && #[trigger] v[i]@ == t }
pub open spec fn holds_table(c: Connection, t: Seq<char>) -> bool { has_table(tables(c), tables(c).len() as int, t) }
pub open spec fn names_of(v: &Vec<String>, rows: Seq<Cells>, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> Cell::Text(#[trigger] v@[i]@) == rows[i][0] }
pub proof fn lemma_names(v: &Vec<String>, rows: Seq<Cells>)
    requires names_of(v, rows, rows.len() as int),
    ensures forall|t: Seq<char>| #[trigger] lists(v@, v@.len() as int, t) == has_table(rows, rows.len() as int, t),
{
    assert forall|t: Seq<char>| #[trigger] lists(v@, v@.len() as int, t) == has_table(rows, rows.len() as int, t) by {
        if lists(v@, v@.len() as int, t) { let i = choose|i: int| 0 <= i < v@.len() && #[trigger] v@[i]@ == t; assert(rows[i][0] == Cell::Text(t)); }
        if has_table(rows, rows.len() as int, t) { let i = choose|i: int| 0 <= i < rows.len() && #[trigger] rows[i][0] == Cell::Text(t); assert(Cell::Text(v@[i]@) == rows[i][0]); assert(v@[i]@ == t); }
    }
}
// ... an error about a column names a table and a column of it that the file does not have as required
pub open spec fn cols_of(t: Tab) -> Seq<Col> {
    match t { Tab::Contributor => contributor_cols(), Tab::Language => language_cols(), Tab::Pattern => pattern_cols(), Tab::Component => component_cols(), Tab::LanguageData => data_cols() }
}
pub open spec fn tab_name(t: Tab) -> Seq<char> {
    match t { Tab::Contributor => "contributor"@, Tab::Language => "language"@, Tab::Pattern => "pattern"@, Tab::Component => "component"@, Tab::LanguageData => "languageData"@ }
}
pub open spec fn col_bad(c: Connection, k: Tab, i: int) -> bool { 0 <= i < cols_of(k).len() && (i >= info(c, k).len() || !col_ok(info(c, k)[i], cols_of(k)[i])) }
pub open spec fn blamed(c: Connection, t: Seq<char>, n: Seq<char>) -> bool { exists|k: Tab, i: int| tab_name(k) == t && #[trigger] cols_of(k)[i].name == n && col_bad(c, k, i) }
pub open spec fn about(e: SchemaError, t: Seq<char>, n: Seq<char>) -> bool {
    match e {
        SchemaError::MissingColumn(a, b) => a@ == t && b@ == n,
        SchemaError::ColumnProperty(a, b, _) => a@ == t && b@ == n,
        SchemaError::ColumnDefault(a, b, _) => a@ == t && b@ == n,
        SchemaError::ColumnMismatch(a, b) => a@ == t && b@ == n,
        _ => true,
    }
}
pub open spec fn just(c: Connection, e: SchemaError) -> bool {
    match e {
        SchemaError::MissingColumn(a, b) => blamed(c, a@, b@),
        SchemaError::ColumnProperty(a, b, _) => blamed(c, a@, b@),
        SchemaError::ColumnDefault(a, b, _) => blamed(c, a@, b@),
        SchemaError::ColumnMismatch(a, b) => blamed(c, a@, b@),
        _ => true,
    }
}
pub proof fn lemma_blame(c: Connection, k: Tab)
    ensures forall|i: int| #[trigger] col_bad(c, k, i) ==> blamed(c, tab_name(k), cols_of(k)[i].name),
{}
// the version is the one of the last row
pub open spec fn version_ok(c: Connection) -> bool { versions(c).len() > 0 && versions(c).last()[0] == Cell::Text("1.0"@) && text_versions(c) }
pub open spec fn text_versions(c: Connection) -> bool { forall|i: int| 0 <= i < versions(c).len() ==> (#[trigger] versions(c)[i])[0] is Text }
pub open spec fn valid_schema(c: Connection) -> bool {
    &&& holds_table(c, "metadata"@) && version_ok(c)
    &&& holds_table(c, "contributor"@) && table_ok(info(c, Tab::Contributor), contributor_cols())
    &&& holds_table(c, "language"@) && table_ok(info(c, Tab::Language), language_cols())
    &&& holds_table(c, "pattern"@) && table_ok(info(c, Tab::Pattern), pattern_cols())
    &&& holds_table(c, "component"@) && table_ok(info(c, Tab::Component), component_cols())
    &&& holds_table(c, "languageData"@) && table_ok(info(c, Tab::LanguageData), data_cols())
}
// ---- specification: the repository of a directory ---------------------------------------------------
pub type Entries = Seq<Result<DirEntry, IoError>>;
pub open spec fn idents(c: Connection) -> Seq<Cells> { sql(c, "SELECT identifier FROM component"@, no_params()) }
// a repository file: `.sqlite3`, and SQLite can open it (a sub-directory is none)
pub open spec fn is_file(e: Result<DirEntry, IoError>) -> bool { e is Ok && e->Ok_0.at().ext() is Some && e->Ok_0.at().ext()->Some_0.text() == Some("sqlite3"@) }
pub open spec fn opens(e: Result<DirEntry, IoError>) -> bool { is_file(e) && e->Ok_0.at().db() is Some }
pub open spec fn stem_of(e: Result<DirEntry, IoError>) -> Option<Seq<char>> { e->Ok_0.at().stem().text() }
pub open spec fn db_of(e: Result<DirEntry, IoError>) -> Connection { e->Ok_0.at().db()->Some_0 }
pub open spec fn one() -> Seq<char> { "__all_in_one__"@ }
pub open spec fn named(c: Connection, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && #[trigger] idents(c)[j][0] == Cell::Text(k) }
pub open spec fn idents_read(c: Connection, n: int) -> bool { forall|j: int| 0 <= j < n ==> (#[trigger] idents(c)[j]).len() >= 1 && idents(c)[j][0] is Text }
pub open spec fn idents_ok(c: Connection) -> bool { idents_read(c, idents(c).len() as int) }
pub open spec fn entry_ok(e: Result<DirEntry, IoError>) -> bool {
    &&& e is Ok
    &&& is_file(e) ==> stem_of(e) is Some
    &&& opens(e) ==> valid_schema(db_of(e)) && (stem_of(e) == Some(one()) ==> idents_ok(db_of(e)))
}
pub open spec fn all_ok(s: Entries, n: int) -> bool { forall|i: int| 0 <= i < n ==> entry_ok(#[trigger] s[i]) }
pub open spec fn all_readable(s: Entries) -> bool { forall|i: int| 0 <= i < s.len() && opens(#[trigger] s[i]) ==> db_of(s[i]).readable() }
// the component is named by the all-in-one file, has a file of its own
pub open spec fn listed_by(e: Result<DirEntry, IoError>, k: Seq<char>) -> bool { opens(e) && stem_of(e) == Some(one()) && named(db_of(e), idents(db_of(e)).len() as int, k) }
pub open spec fn owned_by(e: Result<DirEntry, IoError>, k: Seq<char>) -> bool { opens(e) && stem_of(e) == Some(k) && k != one() }
pub open spec fn listed(s: Entries, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && listed_by(#[trigger] s[i], k) }
pub open spec fn owned(s: Entries, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && owned_by(#[trigger] s[i], k) }
pub open spec fn opened(s: Entries, n: int, k: Seq<char>, c: Connection) -> bool { exists|i: int| 0 <= i < n && opens(#[trigger] s[i]) && stem_of(s[i]) == Some(k) && c == db_of(s[i]) }
pub open spec fn some_component(s: Entries) -> bool { exists|k: Seq<char>| #[trigger] listed(s, s.len() as int, k) || owned(s, s.len() as int, k) }
pub open spec fn is_dir_arg<T>(x: T) -> bool { path_of(x) is Some && path_of(x)->Some_0.a_dir() && path_of(x)->Some_0.listing() is Some }
pub open spec fn files_of<T>(x: T) -> Entries { path_of(x)->Some_0.listing()->Some_0 }
pub open spec fn comps_are(m: Map<VpK, (bool, bool)>, s: Entries, n: int) -> bool {
    &&& forall|k: VpK| #[trigger] m.contains_key(k) ==> k is S
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(VpK::S(k)) <==> listed(s, n, k) || owned(s, n, k)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(VpK::S(k)) ==> m[VpK::S(k)] == (listed(s, n, k), owned(s, n, k))
}
// ... while the rows of the all-in-one file at n are read
pub open spec fn comps_read(m: Map<VpK, (bool, bool)>, s: Entries, n: int, c: Connection, j: int) -> bool {
    &&& forall|k: VpK| #[trigger] m.contains_key(k) ==> k is S
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(VpK::S(k)) <==> listed(s, n, k) || named(c, j, k) || owned(s, n, k)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(VpK::S(k)) ==> m[VpK::S(k)] == (listed(s, n, k) || named(c, j, k), owned(s, n, k))
}
pub open spec fn conns_are(m: Map<VpK, (Kept, String)>, s: Entries, n: int) -> bool {
    &&& forall|k: VpK| #[trigger] m.contains_key(k) ==> k is S && keeps(m[k].0) && opened(s, n, k->S_0, kept(m[k].0)) && m[k].1@ == "1.0"@
    &&& forall|i: int| 0 <= i < n && opens(#[trigger] s[i]) ==> m.contains_key(VpK::S(stem_of(s[i])->Some_0))
}
pub proof fn lemma_repository(m: Map<VpK, (bool, bool)>, o: Map<VpK, (Kept, String)>, s: Entries)
    requires comps_are(m, s, s.len() as int), conns_are(o, s, s.len() as int), all_ok(s, s.len() as int),
    ensures
        (exists|k: VpK| m.contains_key(k)) == some_component(s),
        forall|k: VpK| #[trigger] m.contains_key(k) && m[k].0 ==> o.contains_key(aio()),
        forall|k: VpK| #[trigger] m.contains_key(k) && m[k].1 ==> o.contains_key(k),
{
    if some_component(s) {
        let k = choose|k: Seq<char>| #[trigger] listed(s, s.len() as int, k) || owned(s, s.len() as int, k);
        assert(m.contains_key(VpK::S(k)));
    }
    if exists|k: VpK| m.contains_key(k) {
        let k = choose|k: VpK| m.contains_key(k);
        assert(m.contains_key(VpK::S(k->S_0)));
    }
    assert forall|k: VpK| #[trigger] m.contains_key(k) && m[k].0 implies o.contains_key(aio()) by {
        assert(m.contains_key(VpK::S(k->S_0)));
        assert(listed(s, s.len() as int, k->S_0));
        let i = choose|i: int| 0 <= i < s.len() && listed_by(#[trigger] s[i], k->S_0);
        assert(opens(s[i]));
    }
    assert forall|k: VpK| #[trigger] m.contains_key(k) && m[k].1 implies o.contains_key(k) by {
        assert(m.contains_key(VpK::S(k->S_0)));
        let i = choose|i: int| 0 <= i < s.len() && owned_by(#[trigger] s[i], k->S_0);
        assert(opens(s[i]));
    }
}
@file crates/provider/sqlite3/src/provider.rs
@item DefaultValue
@fn table_exists
@spec
    ensures
        r is Ok <==> lists(table_list@, table_list@.len() as int, name@), // [P05]
        r is Err ==> r->Err_0 is MissingTable && r->Err_0->MissingTable_0@ == name@, // [P05]
@loop 0
    invariant vp_it0.of() == table_list@, vp_it0.pos() <= table_list@.len(), found == lists(table_list@, vp_it0.pos() as int, name@),
    ensures vp_it0.pos() == table_list@.len(),
    decreases table_list@.len() - vp_it0.pos(),
@fn columns_exist
    ensures
        r is Ok <==> count >= required@.len(), // [P05]
        r is Err ==> r->Err_0 is MissingColumn && r->Err_0->MissingColumn_0@ == table@ && r->Err_0->MissingColumn_1@ == required@[count as int]@, // [P05]
@fn columns_check
@spec
    requires
        default is Null, notnull <= 1,
        exists|i: int| col_cells(row.cells(), i),
        type_@ == "INTEGER"@ || type_@ == "REAL"@ || type_@ == "TEXT"@ || type_@ == "DATE"@,
    ensures
        r is Ok <==> col_ok(row.cells(), col(name@, type_@, notnull as nat, pk as nat)), // [P05]
        row.cells()[1] != Cell::Text(name@) ==> r is Err && r->Err_0 is MissingColumn && r->Err_0->MissingColumn_0@ == table@ && r->Err_0->MissingColumn_1@ == name@, // [P05]
        r is Err ==> !(r->Err_0 is MissingTable) && !(r->Err_0 is Version), // [P05]
        r is Err ==> about(r->Err_0, table@, name@), // [P05]
@entry
    proof { reveal_strlit("INTEGER"); reveal_strlit("REAL"); reveal_strlit("TEXT"); reveal_strlit("DATE"); }
@fn verify_schema
@spec
    ensures
        r is Ok ==> valid_schema(*connection) && r->Ok_0@ == "1.0"@, // [P05]
        connection.readable() && valid_schema(*connection) ==> r is Ok, // [P05]
        connection.readable() && !holds_table(*connection, "metadata"@) ==> r is Err && r->Err_0 is MissingTable && r->Err_0->MissingTable_0@ == "metadata"@, // [P05]
        connection.readable() && holds_table(*connection, "metadata"@) && (versions(*connection).len() == 0 || text_versions(*connection)) && !version_ok(*connection) ==> r is Err && r->Err_0 is Version, // [P05]
        r is Err && r->Err_0 is Version ==> !version_ok(*connection), // [P05]
        r is Err && r->Err_0 is MissingTable ==> !holds_table(*connection, r->Err_0->MissingTable_0@), // [P05]
        r is Err ==> just(*connection, r->Err_0), // [P05]
@entry
    proof { axiom_schema(*connection); reveal_strlit("1.0"); }
    let ghost c = *connection;
@before 0
    assert(rows.all() == tables(c)); // [?]
@loop 0
    invariant
        axioms_of(c), c == *connection, rows.of() == c, rows.all() == tables(c), rows.at() <= rows.all().len(),
        names_of(&table_list, tables(c), rows.at() as int),
        metadata == has_table(tables(c), rows.at() as int, "metadata"@),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@after 0
    proof { lemma_names(&table_list, tables(c)); }
@before 1
    assert(rows.all() == versions(c));  // [?]
@loop 1
    invariant
        axioms_of(c), c == *connection, holds_table(c, "metadata"@), rows.of() == c, rows.all() == versions(c), rows.at() <= rows.all().len(),
        forall|i: int| 0 <= i < rows.at() ==> (#[trigger] versions(c)[i])[0] is Text,
        if rows.at() == 0 { schema_version@ == Seq::<char>::empty() } else { Cell::Text(schema_version@) == versions(c)[rows.at() - 1][0] },
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@before 2
    assert(rows.all() == info(c, Tab::Contributor));  // [?]
@loop 2
    invariant
        axioms_of(c), c == *connection, holds_table(c, "metadata"@), version_ok(c), rows.of() == c, rows.all() == info(c, Tab::Contributor), rows.at() <= rows.all().len(), columns == rows.at(),
        cols_ok(rows.all(), contributor_cols(), rows.at() as int),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@head 2
    proof { lemma_blame(c, Tab::Contributor); let n0 = columns as int; assert(col_bad(c, Tab::Contributor, n0) <==> n0 < cols_of(Tab::Contributor).len() && !col_ok(row.cells(), cols_of(Tab::Contributor)[n0])); }
@after 2
    proof { lemma_blame(c, Tab::Contributor); let n0 = columns as int; assert(n0 < cols_of(Tab::Contributor).len() ==> col_bad(c, Tab::Contributor, n0)); }
@before 3
    assert(rows.all() == info(c, Tab::Language));  // [?]
@loop 3
    invariant
        axioms_of(c), c == *connection, holds_table(c, "metadata"@), version_ok(c), rows.of() == c, rows.all() == info(c, Tab::Language), rows.at() <= rows.all().len(), columns == rows.at(),
        cols_ok(rows.all(), language_cols(), rows.at() as int),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@head 3
    proof { lemma_blame(c, Tab::Language); let n0 = columns as int; assert(col_bad(c, Tab::Language, n0) <==> n0 < cols_of(Tab::Language).len() && !col_ok(row.cells(), cols_of(Tab::Language)[n0])); }
@after 3
    proof { lemma_blame(c, Tab::Language); let n0 = columns as int; assert(n0 < cols_of(Tab::Language).len() ==> col_bad(c, Tab::Language, n0)); }
@before 4
    assert(rows.all() == info(c, Tab::Pattern));  // [?]
@loop 4
    invariant
        axioms_of(c), c == *connection, holds_table(c, "metadata"@), version_ok(c), rows.of() == c, rows.all() == info(c, Tab::Pattern), rows.at() <= rows.all().len(), columns == rows.at(),
        cols_ok(rows.all(), pattern_cols(), rows.at() as int),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@head 4
    proof { lemma_blame(c, Tab::Pattern); let n0 = columns as int; assert(col_bad(c, Tab::Pattern, n0) <==> n0 < cols_of(Tab::Pattern).len() && !col_ok(row.cells(), cols_of(Tab::Pattern)[n0])); }
@after 4
    proof { lemma_blame(c, Tab::Pattern); let n0 = columns as int; assert(n0 < cols_of(Tab::Pattern).len() ==> col_bad(c, Tab::Pattern, n0)); }
@before 5
    assert(rows.all() == info(c, Tab::Component));  // [?]
@loop 5
    invariant
        axioms_of(c), c == *connection, holds_table(c, "metadata"@), version_ok(c), rows.of() == c, rows.all() == info(c, Tab::Component), rows.at() <= rows.all().len(), columns == rows.at(),
        cols_ok(rows.all(), component_cols(), rows.at() as int),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@head 5
    proof { lemma_blame(c, Tab::Component); let n0 = columns as int; assert(col_bad(c, Tab::Component, n0) <==> n0 < cols_of(Tab::Component).len() && !col_ok(row.cells(), cols_of(Tab::Component)[n0])); }
@after 5
    proof { lemma_blame(c, Tab::Component); let n0 = columns as int; assert(n0 < cols_of(Tab::Component).len() ==> col_bad(c, Tab::Component, n0)); }
@before 6
    assert(rows.all() == info(c, Tab::LanguageData));  // [?]
@loop 6
    invariant
        axioms_of(c), c == *connection, holds_table(c, "metadata"@), version_ok(c), rows.of() == c, rows.all() == info(c, Tab::LanguageData), rows.at() <= rows.all().len(), columns == rows.at(),
        cols_ok(rows.all(), data_cols(), rows.at() as int),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@head 6
    proof { lemma_blame(c, Tab::LanguageData); let n0 = columns as int; assert(col_bad(c, Tab::LanguageData, n0) <==> n0 < cols_of(Tab::LanguageData).len() && !col_ok(row.cells(), cols_of(Tab::LanguageData)[n0])); }
@after 6
    proof { lemma_blame(c, Tab::LanguageData); let n0 = columns as int; assert(n0 < cols_of(Tab::LanguageData).len() ==> col_bad(c, Tab::LanguageData, n0)); }
@fn LocalisationProviderSqlite3::try_new
@spec
    ensures
        path_of(directory_path) is None ==> r is Err && r->Err_0 is PathConversion, // [P05]
        path_of(directory_path) is Some && !path_of(directory_path)->Some_0.a_dir() ==> r is Err && r->Err_0 is NotDirectory && Some(r->Err_0->NotDirectory_0) == path_of(directory_path), // [P05]
        r is Ok ==> path_of(directory_path) is Some && path_of(directory_path)->Some_0.a_dir() && path_of(directory_path)->Some_0.listing() is Some, // [P05]
        r is Ok ==> all_ok(files_of(directory_path), files_of(directory_path).len() as int) && some_component(files_of(directory_path)), // [P05]
        is_dir_arg(directory_path) && all_ok(files_of(directory_path), files_of(directory_path).len() as int) && all_readable(files_of(directory_path)) && some_component(files_of(directory_path)) ==> r is Ok, // [P05]
        is_dir_arg(directory_path) && all_ok(files_of(directory_path), files_of(directory_path).len() as int) && all_readable(files_of(directory_path)) && !some_component(files_of(directory_path)) ==> r is Err && r->Err_0 is NoSqlite3Files, // [P05]
        r is Err && r->Err_0 is NoSqlite3Files ==> !some_component(files_of(directory_path)), // [P05]
        r is Err && r->Err_0 is SchemaInvalid && all_readable(files_of(directory_path)) ==> !all_ok(files_of(directory_path), files_of(directory_path).len() as int), // [P05]
        r is Ok ==> comps_are(r->Ok_0.components@, files_of(directory_path), files_of(directory_path).len() as int), // [P05]
        r is Ok ==> conns_are(r->Ok_0.connections@, files_of(directory_path), files_of(directory_path).len() as int), // [P05]
        r is Ok ==> r->Ok_0.wf(), // [P05]
@loop 0
    invariant
        path_of(directory_path) == Some(directory), directory.a_dir(), directory.listing() == Some(vp_it0.of()),
        vp_it0.pos() <= vp_it0.of().len(), all_ok(vp_it0.of(), vp_it0.pos() as int),
        comps_are(components@, vp_it0.of(), vp_it0.pos() as int), conns_are(connections@, vp_it0.of(), vp_it0.pos() as int),
    ensures vp_it0.pos() == vp_it0.of().len(),
    decreases vp_it0.of().len() - vp_it0.pos(),
@after 0
    proof { lemma_repository(components@, connections@, vp_it0.of()); }
@before 1
    assert(rows.all() == idents(connection)); // [?]
@loop 1
    invariant
        path_of(directory_path) == Some(directory), directory.a_dir(), directory.listing() == Some(vp_it0.of()),
        0 < vp_it0.pos() <= vp_it0.of().len(), all_ok(vp_it0.of(), vp_it0.pos() - 1),
        rows.of() == connection, rows.all() == idents(connection), rows.at() <= rows.all().len(), idents_read(connection, rows.at() as int),
        opens(vp_it0.of()[vp_it0.pos() - 1]), stem_of(vp_it0.of()[vp_it0.pos() - 1]) == Some(one()), db_of(vp_it0.of()[vp_it0.pos() - 1]) == connection, valid_schema(connection),
        comps_read(components@, vp_it0.of(), vp_it0.pos() - 1, connection, rows.at() as int),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
