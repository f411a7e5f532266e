@prelude
// ---- trusted: a map behind a Mutex, shared with other threads ---------------------------------
// v: its content as this thread last knew it; seen: its content when this thread last locked it
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct SharedMap<K, V> { pub v: HashMap<K, V>, pub seen: Ghost<Map<VpK, V>> }
// what every thread keeps to, from lock to release: which entries it may add, and what may become of an entry
pub trait VpShared: Sized {
    spec fn fits(k: VpK, v: Self) -> bool;
    spec fn stays(a: Self, b: Self) -> bool;
}
pub open spec fn all_fit<V: VpShared>(a: Map<VpK, V>) -> bool { forall|k: VpK| #[trigger] a.contains_key(k) ==> V::fits(k, a[k]) }
// no entry is removed
pub open spec fn grew<V: VpShared>(a: Map<VpK, V>, b: Map<VpK, V>) -> bool {
    forall|k: VpK| #![trigger a.contains_key(k)] #![trigger b.contains_key(k)] a.contains_key(k) ==> b.contains_key(k) && V::stays(a[k], b[k])
}
impl<K: VpKey, V: VpShared> SharedMap<K, V> {
    pub open spec fn kept(&self) -> bool { all_fit(self.v@) && grew(self.seen@, self.v@) }
    #[verifier::external_body]
    pub fn new(v: HashMap<K, V>) -> (r: SharedMap<K, V>) ensures r.v == v, r.seen@ == v@ { unimplemented!() }
    // other threads had their turns since; the content stays as it is from here to the release
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut HashMap<K, V>)
        requires old(self).kept(),
        ensures
            all_fit(r@), grew(old(self).v@, r@),
            final(self).seen@ == r@,
            final(self).v == *final(r),
    { unimplemented!() }
}
