@unit schema
@include prov.vs
@prelude
impl<T> OnceMut<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ is None { unimplemented!() }
}
@rewrite Connection::open_with_flags($p, OpenFlags::SQLITE_OPEN_READ_ONLY | $f) =>> vp_open_file($p)
@mid
pub type Kept = RefCount<Connection>;
pub open spec fn kept(x: Kept) -> Connection { *x }
pub open spec fn keeps(x: Kept) -> bool { true }
@include schema_base.vs
