@unit sync_schema
@features sync
@prelude
impl<T> OnceMut<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures !r.filled() { unimplemented!() }
}
@rewrite Connection::open_with_flags($p.clone(), OpenFlags::SQLITE_OPEN_READ_ONLY | $f) =>> vp_open_file($p.clone())
@include sync_prov.vs
@mid
pub type Kept = PathBuf;
// the file at the path: what file_at stands for in the other units
pub open spec fn kept(x: Kept) -> Connection { x.db()->Some_0 }
pub open spec fn keeps(x: Kept) -> bool { x.plain() && x.db() is Some }
@include schema_base.vs
