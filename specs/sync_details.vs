@unit sync_details
@features sync
@include sync_prov.vs
@mid
pub struct Repo { pub comps: Map<VpK, (bool, bool)>, pub conns: Map<VpK, (PathBuf, String)> }
impl Repo {
    pub open spec fn aio_file(&self) -> Connection { file_at(self.conns[aio()].0) }
    pub open spec fn own_file(&self, c: Seq<char>) -> Connection { file_at(self.conns[VpK::S(c)].0) }
}
impl LocalisationProviderSqlite3 {
    pub open spec fn repo(&self) -> Repo { Repo { comps: self.components@, conns: self.connections@ } }
    // the cells are shared: they hold only right details, whichever thread sets them
    pub open spec fn cells_ok(&self) -> bool {
        &&& forall|v: HashMap<String, RefCount<ComponentDetails>>| #[trigger] self.component_details.fits(v) <==> components_ok(self.repo(), v)
        &&& forall|v: RefCount<RepositoryDetails>| #[trigger] self.repository_details.fits(v) <==> repository_ok(self.repo(), self.components.order(), *v)
    }
    pub open spec fn empty_cells(&self) -> bool { true }
    pub open spec fn filled(&self) -> bool { self.component_details.filled() && self.repository_details.filled() }
    pub open spec fn keeps_components(&self, o: &LocalisationProviderSqlite3) -> bool { true }
    pub open spec fn keeps_repository(&self, o: &LocalisationProviderSqlite3) -> bool { true }
}
@include details_base.vs
