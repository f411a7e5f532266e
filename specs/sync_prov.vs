@prelude
// OnceLock: shared; whatever a thread finds in it is one of the values that may be set (a ghost set chosen when
// the cell is made), and a cell that has a value keeps having one
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct OnceMut<T> { _p: Vec<T> }
impl<T> OnceMut<T> {
    pub uninterp spec fn fits(&self, v: T) -> bool;
    pub uninterp spec fn filled(&self) -> bool;
    #[verifier::external_body]
    pub fn get(&self) -> (r: Option<&T>)
        ensures self.filled() ==> r is Some, r is Some ==> self.fits(*r->Some_0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, v: T) -> (r: Result<(), T>)
        requires old(self).fits(v),
        ensures final(self).filled(), forall|w: T| #[trigger] final(self).fits(w) <==> old(self).fits(w),
    { unimplemented!() }
}
// the file at a path (the files of the repository do not change), opened anew for every request
pub uninterp spec fn file_at(p: PathBuf) -> Connection;
#[verifier::external_body]
pub fn vp_open(p: &PathBuf) -> (r: Result<Connection, Sqlite3Error>)
    ensures r is Ok ==> r->Ok_0 == file_at(*p), file_at(*p).readable() ==> r is Ok,
{ unimplemented!() }
@rewrite $x.vp_borrow(vp_now).insert($k, $v) =>> vp_now = $x.vp_insert($k, $v, vp_now)
@rewrite $x.lock().unwrap() =>> $x.vp_borrow(vp_now)
@rewrite Connection::open_with_flags($p, OpenFlags::SQLITE_OPEN_READ_ONLY | OpenFlags::SQLITE_OPEN_NO_MUTEX | OpenFlags::SQLITE_OPEN_URI) =>> vp_open($p)
@include prov_base.vs
@mid
impl LocalisationProviderSqlite3 {
    pub open spec fn aio_file(&self) -> Connection { file_at(self.connections@[aio()].0) }
    pub open spec fn own_file(&self, c: Seq<char>) -> Connection { file_at(self.connections@[VpK::S(c)].0) }
}
@fn LocalisationProviderSqlite3::connection_sync
    requires self.wf(),
    ensures
        r is Ok ==> self.has(component@, all_in_one), // [P03] [P04]
        self.has(component@, all_in_one) && self.file(component@, all_in_one).readable() ==> r is Ok, // [P03] [P04]
        r is Ok ==> r->Ok_0.0 == self.file(component@, all_in_one) && r->Ok_0.1@ == "1.0"@, // [P03] [P04]
        !self.has(component@, all_in_one) ==> r is Err && r->Err_0 is ComponentNotFound && r->Err_0->ComponentNotFound_0@ == component@, // [P03] [P04]
