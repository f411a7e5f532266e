@prelude
// ---- trusted: std HashMap as a mathematical map over the abstract value of its key -----------
pub enum VpK { S(Seq<char>), T(Seq<char>), C(Seq<char>, Seq<char>, bool, bool), P(Seq<char>, Seq<char>) }
pub trait VpKey { spec fn kv(&self) -> VpK; }
impl VpKey for str { open spec fn kv(&self) -> VpK { VpK::S(self@) } }
impl VpKey for String { open spec fn kv(&self) -> VpK { VpK::S(self@) } }
impl VpKey for (String, String, bool, bool) { open spec fn kv(&self) -> VpK { VpK::C(self.0@, self.1@, self.2, self.3) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _k: Vec<K>, _v: Vec<V> }
impl<K: VpKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<VpK, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<VpK, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VpKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k.kv()), r is Some ==> *r->Some_0 == self@[k.kv()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VpKey + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k.kv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
            r is Some <==> old(self)@.contains_key(k.kv()), r is Some ==> r->Some_0 == old(self)@[k.kv()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: VpKey + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures
            r is Some <==> old(self)@.contains_key(k.kv()),
            r is Some ==> *r->Some_0 == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(r->Some_0)),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
}
// an entry of a map: the map and the key
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
impl<K: VpKey, V> HashMap<K, V> {
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures *r.map == *old(self), *final(r.map) == *final(self), r.key == k,
    { Entry { map: self, key: k } }
}
impl<'a, K: VpKey, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures
            *r == (if (*old(self.map))@.contains_key(self.key.kv()) { (*old(self.map))@[self.key.kv()] } else { v }),
            (*final(self.map))@ == (*old(self.map))@.insert(self.key.kv(), *final(r)),
    { unimplemented!() }
}
// the default of a map is the empty map
impl<'a, K: VpKey, K2: VpKey, V2> Entry<'a, K, HashMap<K2, V2>> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut HashMap<K2, V2>)
        ensures
            (*old(self.map))@.contains_key(self.key.kv()) ==> *r == (*old(self.map))@[self.key.kv()],
            !(*old(self.map))@.contains_key(self.key.kv()) ==> r@ == Map::<VpK, V2>::empty(),
            (*final(self.map))@ == (*old(self.map))@.insert(self.key.kv(), *final(r)),
    { unimplemented!() }
}
impl<K: VpKey, V> HashMap<K, V> {
    // the order in which this map yields its keys: every key once
    pub uninterp spec fn order(&self) -> Seq<VpK>;
    pub open spec fn value_list(&self) -> Seq<V> { Seq::new(self.order().len(), |i: int| self@[self.order()[i]]) }
}
#[verifier::external_body]
pub proof fn vp_axiom_order<K: VpKey, V>(m: &HashMap<K, V>)
    ensures m.order().no_duplicates(), m.order().to_set() == m@.dom(), m.order().len() == m@.dom().len(),
{}
