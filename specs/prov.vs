@rewrite $x.borrow_mut().insert($k, $v) =>> vp_now = $x.vp_insert($k, $v, vp_now)
@rewrite $x.borrow() =>> $x.vp_borrow(vp_now)
@prelude
// a cell that is written at most once, as its value
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OnceMut<T> { _p: Vec<T> }
impl<T> OnceMut<T> {
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn get(&self) -> (r: Option<&T>)
        ensures r is Some <==> self@ is Some, r is Some ==> *r->Some_0 == self@->Some_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, v: T) -> (r: Result<(), T>)
        ensures old(self)@ is None ==> r is Ok && final(self)@ == Some(v), old(self)@ is Some ==> r is Err && final(self)@ == old(self)@,
    { unimplemented!() }
}
@include prov_base.vs
@mid
impl LocalisationProviderSqlite3 {
    pub open spec fn aio_file(&self) -> Connection { *self.connections@[aio()].0 }
    pub open spec fn own_file(&self, c: Seq<char>) -> Connection { *self.connections@[VpK::S(c)].0 }
}
@fn LocalisationProviderSqlite3::connection
    requires self.wf(),
    ensures
        r is Ok <==> self.has(component@, all_in_one), // [P03] [P04]
        r is Ok ==> *r->Ok_0.0 == self.file(component@, all_in_one) && r->Ok_0.1@ == "1.0"@, // [P03] [P04]
        r is Err ==> r->Err_0 is ComponentNotFound && r->Err_0->ComponentNotFound_0@ == component@, // [P03] [P04]
