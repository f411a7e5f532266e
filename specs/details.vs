@unit details
@include prov.vs
@mid
pub struct Repo { pub comps: Map<VpK, (bool, bool)>, pub conns: Map<VpK, (RefCount<Connection>, String)> }
impl Repo {
    pub open spec fn aio_file(&self) -> Connection { *self.conns[aio()].0 }
    pub open spec fn own_file(&self, c: Seq<char>) -> Connection { *self.conns[VpK::S(c)].0 }
}
impl LocalisationProviderSqlite3 {
    pub open spec fn repo(&self) -> Repo { Repo { comps: self.components@, conns: self.connections@ } }
    pub open spec fn cells_ok(&self) -> bool {
        &&& self.component_details@ is Some <==> self.repository_details@ is Some
        &&& self.component_details@ is Some ==> components_ok(self.repo(), self.component_details@->Some_0) && repository_ok(self.repo(), self.components.order(), *self.repository_details@->Some_0)
    }
    pub open spec fn empty_cells(&self) -> bool { self.component_details@ is None }
    pub open spec fn filled(&self) -> bool { self.component_details@ is Some }
    pub open spec fn keeps_components(&self, o: &LocalisationProviderSqlite3) -> bool { o.component_details@ is Some ==> self.component_details == o.component_details }
    pub open spec fn keeps_repository(&self, o: &LocalisationProviderSqlite3) -> bool { o.component_details@ is Some ==> self.repository_details == o.repository_details }
}
@include details_base.vs
