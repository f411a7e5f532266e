@desugar-for
@prelude
// ---- trusted: iterators ------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIter<'a, T> { _p: &'a Vec<T> }
impl<'a, T> VpIter<'a, T> {
    pub uninterp spec fn of(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).of() == old(self).of(),
            old(self).pos() < old(self).of().len() ==> r is Some && *r->Some_0 == old(self).of()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
pub trait VpIterable<T> { fn vp_iter<'a>(&'a self) -> (r: VpIter<'a, T>); }
impl<T> VpIterable<T> for Vec<T> {
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: VpIter<'a, T>) ensures r.of() == self@, r.pos() == 0 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecIter<T> { _p: Vec<T> }
impl<T> VecIter<T> {
    pub uninterp spec fn of(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).of() == old(self).of(),
            old(self).pos() < old(self).of().len() ==> r is Some && r->Some_0 == old(self).of()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
// a map yields every entry once
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct MapIter<'a, K, V> { _p: &'a HashMap<K, V> }
impl<'a, K: VpKey, V> MapIter<'a, K, V> {
    pub uninterp spec fn of(&self) -> HashMap<K, V>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures
            final(self).of() == old(self).of(),
            old(self).pos() < old(self).of().order().len() ==> r is Some && r->Some_0.0.kv() == old(self).of().order()[old(self).pos() as int]
                && *r->Some_0.1 == old(self).of()@[old(self).of().order()[old(self).pos() as int]] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().order().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
// the same with mutable values: fin is the map when the iterator ends
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct MapIterMut<'a, K, V> { _p: &'a mut HashMap<K, V> }
impl<'a, K: VpKey, V> MapIterMut<'a, K, V> {
    pub uninterp spec fn of(&self) -> Map<VpK, V>;
    pub uninterp spec fn fin(&self) -> Map<VpK, V>;
    pub uninterp spec fn order(&self) -> Seq<VpK>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a mut V)>)
        ensures
            final(self).of() == old(self).of(), final(self).fin() == old(self).fin(), final(self).order() == old(self).order(),
            old(self).pos() < old(self).order().len() ==> r is Some && r->Some_0.0.kv() == old(self).order()[old(self).pos() as int]
                && *r->Some_0.1 == old(self).of()[old(self).order()[old(self).pos() as int]]
                && *final(r->Some_0.1) == old(self).fin()[old(self).order()[old(self).pos() as int]] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).order().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
impl<K: VpKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vp_iter(&self) -> (r: MapIter<'_, K, V>) ensures r.of() == *self, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut(&mut self) -> (r: MapIterMut<'_, K, V>)
        ensures r.of() == old(self)@, r.fin() == final(self)@, r.fin().dom() == r.of().dom(), r.order().no_duplicates(), r.order().to_set() == r.of().dom(), r.pos() == 0,
    { unimplemented!() }
}
pub trait VpInto: Sized {
    type I;
    spec fn starts(self, r: Self::I) -> bool;
    fn go(self) -> (r: Self::I) ensures self.starts(r);
}
impl<'a, T> VpInto for VpIter<'a, T> {
    type I = VpIter<'a, T>;
    open spec fn starts(self, r: VpIter<'a, T>) -> bool { r == self }
    fn go(self) -> (r: VpIter<'a, T>) { self }
}
impl<'a, K: VpKey, V> VpInto for MapIter<'a, K, V> {
    type I = MapIter<'a, K, V>;
    open spec fn starts(self, r: MapIter<'a, K, V>) -> bool { r == self }
    fn go(self) -> (r: MapIter<'a, K, V>) { self }
}
impl<'a, K: VpKey, V> VpInto for MapIterMut<'a, K, V> {
    type I = MapIterMut<'a, K, V>;
    open spec fn starts(self, r: MapIterMut<'a, K, V>) -> bool { r == self }
    fn go(self) -> (r: MapIterMut<'a, K, V>) { self }
}
impl<T> VpInto for Vec<T> {
    type I = VecIter<T>;
    open spec fn starts(self, r: VecIter<T>) -> bool { r.of() == self@ && r.pos() == 0 }
    #[verifier::external_body]
    fn go(self) -> (r: VecIter<T>) { unimplemented!() }
}
pub fn vp_into_iter<X: VpInto>(x: X) -> (r: X::I) ensures x.starts(r) { x.go() }
// equality as the code uses it: texts and tags by their characters
pub trait VpText { spec fn tx(&self) -> Seq<char>; }
impl VpText for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VpText for RefCount<LanguageTag> { open spec fn tx(&self) -> Seq<char> { (**self).tag@ } }
pub open spec fn texts<T: VpText>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|x: T| x.tx()) }
#[verifier::external_body]
pub fn vp_contains<T: VpText>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == texts(v@).contains(x.tx()) { unimplemented!() }
// quotient of two numbers as f32
pub uninterp spec fn ratio_of(a: usize, b: usize) -> f32;
#[verifier::external_body]
pub fn vp_ratio(a: usize, b: usize) -> (r: f32) ensures r == ratio_of(a, b) { unimplemented!() }
@rewrite $x.iter() =>> $x.vp_iter()
@rewrite $x.contains($y) =>> vp_contains(&$x, $y)
@rewrite $x.cmp($y) == Ordering::Equal =>> vp_str_eq($x, $y)
@rewrite $a as f32 / $b as f32 =>> vp_ratio($a, $b)
@mid
pub open spec fn one_cell(t: Seq<char>) -> Cells { seq![Cell::Text(t)] }
// the rows of one column, in the order of SQLite
pub uninterp spec fn langs(conn: Connection, c: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn ident_langs(conn: Connection, i: Seq<char>, c: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn contribs(conn: Connection, t: Seq<char>, c: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn defaults(conn: Connection, c: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn count_of(conn: Connection, t: Seq<char>, c: Seq<char>) -> nat { conn.patterns().filter(|r: PatRow| r.tag == t && r.component == c).len() }
pub open spec fn columns(v: Seq<Seq<char>>) -> Seq<Cells> { v.map_values(|t: Seq<char>| one_cell(t)) }
pub open spec fn sql_details(conn: Connection) -> bool {
    &&& forall|p: Seq<Seq<char>>| p.len() == 1 ==> #[trigger] sql(conn, q_languages(), p) == columns(langs(conn, p[0]))
    &&& forall|p: Seq<Seq<char>>| p.len() == 2 ==> #[trigger] sql(conn, q_identifier(), p) == columns(ident_langs(conn, p[0], p[1]))
    &&& forall|p: Seq<Seq<char>>| p.len() == 2 ==> #[trigger] sql(conn, q_contributors(), p) == columns(contribs(conn, p[0], p[1]))
    &&& forall|p: Seq<Seq<char>>| p.len() == 2 ==> #[trigger] sql(conn, q_count(), p) == seq![seq![Cell::Int(count_of(conn, p[0], p[1]))]]
    &&& forall|p: Seq<Seq<char>>| p.len() == 1 ==> #[trigger] sql(conn, q_default(), p) == columns(defaults(conn, p[0]))
}
#[verifier::external_body]
pub proof fn axiom_sql_details(conn: Connection)
    ensures
        sql_details(conn), conn.patterns().len() <= isize::MAX,
        forall|c: Seq<char>, t: Seq<char>| #[trigger] langs(conn, c).contains(t) <==> exists|r: ConRow| #[trigger] conn.contributors().contains(r) && r.component == c && r.tag == t,
        forall|c: Seq<char>| (#[trigger] langs(conn, c)).no_duplicates(),
        forall|i: Seq<char>, c: Seq<char>, t: Seq<char>| #[trigger] ident_langs(conn, i, c).contains(t) <==> exists|r: PatRow| #[trigger] conn.patterns().contains(r) && r.identifier == i && r.component == c && r.tag == t,
        forall|t: Seq<char>, c: Seq<char>, n: Seq<char>| #[trigger] contribs(conn, t, c).contains(n) <==> exists|r: ConRow| #[trigger] conn.contributors().contains(r) && r.component == c && r.tag == t && r.contributor == n,
        forall|t: Seq<char>, c: Seq<char>| (#[trigger] contribs(conn, t, c)).no_duplicates(),
        forall|c: Seq<char>, t: Seq<char>| #[trigger] defaults(conn, c).contains(t) <==> exists|r: CompRow| #[trigger] conn.components().contains(r) && r.identifier == c && r.tag == t,
{}
pub open spec fn good_all(conn: Connection) -> bool {
    &&& good(conn)
    &&& forall|r: ConRow| #[trigger] conn.contributors().contains(r) ==> tag_of(r.tag) is Ok
    &&& forall|r: CompRow| #[trigger] conn.components().contains(r) ==> tag_of(r.tag) is Ok
}
pub open spec fn are_tags(v: Seq<RefCount<LanguageTag>>, t: Seq<Seq<char>>) -> bool {
    v.len() == t.len() && forall|n: int| 0 <= n < v.len() ==> tag_of(t[n]) == Ok::<RefCount<LanguageTag>, RegistryError>(#[trigger] v[n])
}
pub open spec fn are_texts(v: Seq<String>, t: Seq<Seq<char>>) -> bool { v.len() == t.len() && forall|n: int| 0 <= n < v.len() ==> t[n] == (#[trigger] v[n])@ }
pub open spec fn all_tags(v: Seq<Seq<char>>) -> bool { forall|n: int| 0 <= n < v.len() ==> tag_of(#[trigger] v[n]) is Ok }
pub proof fn lemma_tags(conn: Connection)
    ensures good_all(conn) ==> {
        &&& forall|c: Seq<char>| all_tags(#[trigger] langs(conn, c))
        &&& forall|c: Seq<char>| all_tags(#[trigger] defaults(conn, c))
        &&& forall|i: Seq<char>, c: Seq<char>| all_tags(#[trigger] ident_langs(conn, i, c))
    },
{
    axiom_sql_details(conn);
    if good_all(conn) {
        assert forall|c: Seq<char>| all_tags(#[trigger] langs(conn, c)) by {
            assert forall|n: int| 0 <= n < langs(conn, c).len() implies tag_of(#[trigger] langs(conn, c)[n]) is Ok by { assert(langs(conn, c).contains(langs(conn, c)[n])); }
        }
        assert forall|c: Seq<char>| all_tags(#[trigger] defaults(conn, c)) by {
            assert forall|n: int| 0 <= n < defaults(conn, c).len() implies tag_of(#[trigger] defaults(conn, c)[n]) is Ok by { assert(defaults(conn, c).contains(defaults(conn, c)[n])); }
        }
        assert forall|i: Seq<char>, c: Seq<char>| all_tags(#[trigger] ident_langs(conn, i, c)) by {
            assert forall|n: int| 0 <= n < ident_langs(conn, i, c).len() implies tag_of(#[trigger] ident_langs(conn, i, c)[n]) is Ok by { assert(ident_langs(conn, i, c).contains(ident_langs(conn, i, c)[n])); }
        }
    }
}
pub proof fn lemma_count(conn: Connection, t: Seq<char>, c: Seq<char>)
    ensures count_of(conn, t, c) <= usize::MAX,
{
    axiom_sql_details(conn);
    conn.patterns().lemma_filter_len(|r: PatRow| r.tag == t && r.component == c);
}
// ---- P04: what the details have to be, over the tables of the files --------------------------------
impl Repo {
    pub open spec fn in_aio(&self, c: Seq<char>) -> bool { self.comps.contains_key(VpK::S(c)) && self.comps[VpK::S(c)].0 }
    pub open spec fn in_own(&self, c: Seq<char>) -> bool { self.comps.contains_key(VpK::S(c)) && self.comps[VpK::S(c)].1 }
    // the languages of a component: those of its contributors
    pub open spec fn has_lang(&self, c: Seq<char>, t: Seq<char>) -> bool {
        (self.in_aio(c) && langs(self.aio_file(), c).contains(t)) || (self.in_own(c) && langs(self.own_file(c), c).contains(t))
    }
    // the number of its strings in a language
    pub open spec fn count(&self, c: Seq<char>, t: Seq<char>) -> nat {
        (if self.in_aio(c) { count_of(self.aio_file(), t, c) } else { 0 }) + (if self.in_own(c) { count_of(self.own_file(c), t, c) } else { 0 })
    }
    pub open spec fn has_contributor(&self, c: Seq<char>, t: Seq<char>, x: Seq<char>) -> bool {
        (self.in_aio(c) && contribs(self.aio_file(), t, c).contains(x)) || (self.in_own(c) && contribs(self.own_file(c), t, c).contains(x))
    }
    pub open spec fn default(&self, c: Seq<char>) -> Option<Seq<char>> {
        if self.in_aio(c) && defaults(self.aio_file(), c).len() > 0 { Some(defaults(self.aio_file(), c).last()) }
        else if self.in_own(c) && defaults(self.own_file(c), c).len() > 0 { Some(defaults(self.own_file(c), c).last()) }
        else { None }
    }
    // its languages, each once
    pub open spec fn lang_list(&self, c: Seq<char>) -> Seq<Seq<char>> {
        let a = if self.in_aio(c) { langs(self.aio_file(), c) } else { Seq::empty() };
        let o = if self.in_own(c) { langs(self.own_file(c), c) } else { Seq::empty() };
        a + o.filter(|t: Seq<char>| !a.contains(t))
    }
    // the number of its strings
    pub open spec fn total(&self, c: Seq<char>) -> nat { self.sum(c, self.lang_list(c), self.lang_list(c).len() as int) }
    pub open spec fn sum(&self, c: Seq<char>, l: Seq<Seq<char>>, n: int) -> nat
        decreases n,
    { if n <= 0 { 0 } else { self.sum(c, l, n - 1) + self.count(c, l[n - 1]) } }
    // over the first n components
    pub open spec fn r_total(&self, o: Seq<VpK>, n: int) -> nat
        decreases n,
    { if n <= 0 { 0 } else { self.r_total(o, n - 1) + self.total(o[n - 1]->S_0) } }
    pub open spec fn r_count(&self, o: Seq<VpK>, n: int, t: Seq<char>) -> nat
        decreases n,
    { if n <= 0 { 0 } else { self.r_count(o, n - 1, t) + if self.has_lang(o[n - 1]->S_0, t) { self.count(o[n - 1]->S_0, t) } else { 0 } } }
    pub open spec fn r_lang(&self, o: Seq<VpK>, n: int, t: Seq<char>) -> bool
        decreases n,
    { n > 0 && (self.r_lang(o, n - 1, t) || self.has_lang(o[n - 1]->S_0, t)) }
    pub open spec fn r_contributor(&self, o: Seq<VpK>, n: int, x: Seq<char>) -> bool
        decreases n,
    { n > 0 && (self.r_contributor(o, n - 1, x) || exists|t: Seq<char>| #[trigger] self.has_lang(o[n - 1]->S_0, t) && self.has_contributor(o[n - 1]->S_0, t, x)) }
    // of the first n languages of a component
    pub open spec fn l_contributor(&self, c: Seq<char>, l: Seq<Seq<char>>, n: int, x: Seq<char>) -> bool
        decreases n,
    { n > 0 && (self.l_contributor(c, l, n - 1, x) || self.has_contributor(c, l[n - 1], x)) }
    // every file can be read, its tags are canonical, every component has a default language among its languages
    pub open spec fn complete(&self) -> bool {
        forall|c: Seq<char>| #[trigger] self.comps.contains_key(VpK::S(c)) ==> {
            &&& self.in_aio(c) ==> good_all(self.aio_file())
            &&& self.in_own(c) ==> good_all(self.own_file(c))
            &&& self.in_aio(c) || self.in_own(c)
            &&& self.default(c) is Some && self.has_lang(c, self.default(c)->Some_0)
            &&& tag_of("und"@) is Ok
        }
    }
    pub open spec fn canonical(&self) -> bool {
        forall|c: Seq<char>| #[trigger] self.comps.contains_key(VpK::S(c)) ==> (self.in_aio(c) ==> canonical(self.aio_file())) && (self.in_own(c) ==> canonical(self.own_file(c)))
    }
}
pub open spec fn canon_tag(t: Seq<char>) -> bool { tag_of(t) is Ok ==> (*tag_of(t)->Ok_0).tag@ == t }
pub open spec fn canonical(conn: Connection) -> bool {
    &&& forall|r: PatRow| #[trigger] conn.patterns().contains(r) ==> canon_tag(r.tag)
    &&& forall|r: ConRow| #[trigger] conn.contributors().contains(r) ==> canon_tag(r.tag)
    &&& forall|r: CompRow| #[trigger] conn.components().contains(r) ==> canon_tag(r.tag)
}
pub open spec fn data_ok(r: Repo, c: Seq<char>, t: Seq<char>, d: LanguageData) -> bool {
    d.count == r.count(c, t) && contributors_ok(r, c, t, d.contributors@)
}
pub open spec fn contributors_ok(r: Repo, c: Seq<char>, t: Seq<char>, v: Seq<String>) -> bool {
    texts(v).no_duplicates() && forall|x: Seq<char>| #[trigger] texts(v).contains(x) <==> r.has_contributor(c, t, x)
}
pub open spec fn details_ok(r: Repo, c: Seq<char>, d: ComponentDetails) -> bool {
    &&& forall|k: VpK| #[trigger] d.languages@.contains_key(k) <==> k is T && r.has_lang(c, k->T_0)
    &&& r.default(c) == Some((*d.default).tag@) && r.has_lang(c, (*d.default).tag@)
    &&& d.total_strings == r.total(c)
    &&& forall|k: VpK| #[trigger] d.languages@.contains_key(k) ==> data_ok(r, c, k->T_0, d.languages@[k])
    &&& forall|k: VpK| #[trigger] d.languages@.contains_key(k) ==> d.languages@[k].ratio == ratio_of(d.languages@[k].count, d.languages@[VpK::T((*d.default).tag@)].count)
}
pub open spec fn has_ident(r: Repo, c: Seq<char>, i: Seq<char>, t: Seq<char>) -> bool {
    (r.in_aio(c) && ident_langs(r.aio_file(), i, c).contains(t)) || (r.in_own(c) && ident_langs(r.own_file(c), i, c).contains(t))
}
pub open spec fn ident_ok(r: Repo, c: Seq<char>, i: Seq<char>, d: IdentifierDetails) -> bool {
    &&& forall|t: Seq<char>| #[trigger] texts(d.languages@).contains(t) <==> has_ident(r, c, i, t)
    &&& r.default(c) == Some((*d.default).tag@)
}
pub open spec fn application() -> Seq<char> { "application"@ }
pub open spec fn repository_ok(r: Repo, o: Seq<VpK>, d: RepositoryDetails) -> bool {
    &&& forall|k: VpK| #[trigger] d.languages@.contains_key(k) <==> k is T && r.r_lang(o, o.len() as int, k->T_0)
    &&& forall|k: VpK| #[trigger] d.languages@.contains_key(k) ==> d.languages@[k].count == r.r_count(o, o.len() as int, k->T_0)
    &&& d.total_strings == r.r_total(o, o.len() as int)
    &&& d.components@.len() == o.len() && forall|n: int| 0 <= n < o.len() ==> o[n] == VpK::S((#[trigger] d.components@[n])@)
    &&& texts(d.contributors@).no_duplicates() && forall|x: Seq<char>| #[trigger] texts(d.contributors@).contains(x) <==> r.r_contributor(o, o.len() as int, x)
    &&& d.default is Some <==> r.comps.contains_key(VpK::S(application()))
    &&& d.default is Some ==> r.default(application()) == Some((*d.default->Some_0).tag@)
    &&& d.default is Some ==> forall|k: VpK| #[trigger] d.languages@.contains_key(k) ==> d.languages@[k].ratio == ratio_of(d.languages@[k].count, d.languages@[VpK::T((*d.default->Some_0).tag@)].count)
}
// the kept details: of every component, of the repository
pub open spec fn components_ok(r: Repo, v: HashMap<String, RefCount<ComponentDetails>>) -> bool {
    &&& forall|k: VpK| #[trigger] v@.contains_key(k) <==> r.comps.contains_key(k)
    &&& forall|k: VpK| #[trigger] v@.contains_key(k) ==> k is S && details_ok(r, k->S_0, *v@[k])
}
impl LocalisationProviderSqlite3 {
    pub open spec fn same_data(&self, o: &LocalisationProviderSqlite3) -> bool {
        self.components == o.components && self.connections == o.connections && self.queries == o.queries && self.language_tag_registry == o.language_tag_registry
    }
}
// ---- trusted: the files together have fewer strings than fit a machine word --------------------------
#[verifier::external_body]
pub proof fn axiom_small(p: &LocalisationProviderSqlite3)
    ensures p.repo().r_total(p.components.order(), p.components.order().len() as int) <= usize::MAX,
{}
pub open spec fn fresh(d: LanguageData) -> bool { d.count == 0 && d.contributors@.len() == 0 }
pub open spec fn rated(a: LanguageData, b: LanguageData, n: usize) -> bool { b.count == a.count && b.contributors == a.contributors && b.ratio == ratio_of(a.count, n) }
// ---- lemmas ------------------------------------------------------------------------------------------
pub open spec fn seq_facts() -> bool {
    &&& forall|v: Seq<RefCount<LanguageTag>>, x: RefCount<LanguageTag>| #[trigger] texts(v.push(x)) == texts(v).push(x.tx())
    &&& forall|v: Seq<String>, x: String| #[trigger] texts(v.push(x)) == texts(v).push(x.tx())
    &&& forall|l: Seq<Seq<char>>, y: Seq<char>, x: Seq<char>| #[trigger] l.push(y).contains(x) <==> l.contains(x) || x == y
    &&& forall|l: Seq<Seq<char>>, y: Seq<char>| l.no_duplicates() && !l.contains(y) ==> #[trigger] l.push(y).no_duplicates()
    &&& forall|l: Seq<Seq<char>>| #[trigger] l.take(l.len() as int) == l
    &&& forall|l: Seq<Seq<char>>, x: Seq<char>| !(#[trigger] l.take(0).contains(x))
    &&& forall|v: Seq<RefCount<LanguageTag>>| (#[trigger] texts(v)).len() == v.len()
    &&& forall|v: Seq<String>| (#[trigger] texts(v)).len() == v.len()
    &&& forall|v: Seq<RefCount<LanguageTag>>| v.len() == 0 ==> (#[trigger] texts(v)) == Seq::<Seq<char>>::empty()
    &&& forall|v: Seq<String>| v.len() == 0 ==> (#[trigger] texts(v)) == Seq::<Seq<char>>::empty()
}
pub proof fn lemma_seq_facts()
    ensures seq_facts(),
{
    assert forall|v: Seq<RefCount<LanguageTag>>, x: RefCount<LanguageTag>| #[trigger] texts(v.push(x)) == texts(v).push(x.tx()) by { assert(texts(v.push(x)) =~= texts(v).push(x.tx())); }
    assert forall|v: Seq<String>, x: String| #[trigger] texts(v.push(x)) == texts(v).push(x.tx()) by { assert(texts(v.push(x)) =~= texts(v).push(x.tx())); }
    assert forall|l: Seq<Seq<char>>, y: Seq<char>, x: Seq<char>| #[trigger] l.push(y).contains(x) <==> l.contains(x) || x == y by {
        if l.contains(x) { let n = choose|n: int| 0 <= n < l.len() && l[n] == x; assert(l.push(y)[n] == x); }
        if x == y { assert(l.push(y)[l.len() as int] == x); }
        if l.push(y).contains(x) && x != y { let n = choose|n: int| 0 <= n < l.push(y).len() && l.push(y)[n] == x; assert(l[n] == x); }
    }
    assert forall|l: Seq<Seq<char>>, y: Seq<char>| l.no_duplicates() && !l.contains(y) implies #[trigger] l.push(y).no_duplicates() by {
        assert forall|i: int, j: int| 0 <= i < l.push(y).len() && 0 <= j < l.push(y).len() && i != j implies l.push(y)[i] != l.push(y)[j] by {
            if i < l.len() { assert(l.contains(l[i])); }
            if j < l.len() { assert(l.contains(l[j])); }
        }
    }
    assert forall|l: Seq<Seq<char>>| #[trigger] l.take(l.len() as int) == l by { assert(l.take(l.len() as int) =~= l); }
    assert forall|v: Seq<RefCount<LanguageTag>>| v.len() == 0 implies (#[trigger] texts(v)) == Seq::<Seq<char>>::empty() by { assert(texts(v) =~= Seq::<Seq<char>>::empty()); }
    assert forall|v: Seq<String>| v.len() == 0 implies (#[trigger] texts(v)) == Seq::<Seq<char>>::empty() by { assert(texts(v) =~= Seq::<Seq<char>>::empty()); }
}
pub proof fn lemma_take(l: Seq<Seq<char>>, n: int)
    requires 0 <= n < l.len(),
    ensures forall|x: Seq<char>| #[trigger] l.take(n + 1).contains(x) <==> l.take(n).contains(x) || x == l[n],
        l.no_duplicates() ==> !l.take(n).contains(l[n]), l.contains(l[n]),
{
    lemma_seq_facts();
    assert(l.take(n + 1) =~= l.take(n).push(l[n]));
    if l.take(n).contains(l[n]) { let k = choose|k: int| 0 <= k < l.take(n).len() && l.take(n)[k] == l[n]; assert(l[k] == l[n]); }
}
pub proof fn lemma_order_take(l: Seq<VpK>, n: int)
    requires 0 <= n < l.len(),
    ensures forall|x: VpK| #[trigger] l.take(n + 1).contains(x) <==> l.take(n).contains(x) || x == l[n],
        l.no_duplicates() ==> !l.take(n).contains(l[n]), l.contains(l[n]), l.to_set().contains(l[n]),
{
    assert(l.take(n + 1) =~= l.take(n).push(l[n]));
    assert forall|x: VpK| #[trigger] l.take(n + 1).contains(x) <==> l.take(n).contains(x) || x == l[n] by {
        if l.take(n).contains(x) { let k = choose|k: int| 0 <= k < l.take(n).len() && l.take(n)[k] == x; assert(l.take(n + 1)[k] == x); }
        if x == l[n] { assert(l.take(n + 1)[n] == x); }
        if l.take(n + 1).contains(x) && x != l[n] { let s = l.take(n + 1); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(l.take(n)[k] == x); }
    }
    assert(l.contains(l[n]));
    if l.take(n).contains(l[n]) { let k = choose|k: int| 0 <= k < l.take(n).len() && l.take(n)[k] == l[n]; assert(l[k] == l[n]); }
}
// sums over the languages of a component
proof fn lemma_sum_same(r: Repo, c: Seq<char>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> a[k] == b[k],
    ensures r.sum(c, a, n) == r.sum(c, b, n),
    decreases n,
{ if n > 0 { lemma_sum_same(r, c, a, b, n - 1); } }
proof fn lemma_sum_remove(r: Repo, c: Seq<char>, b: Seq<Seq<char>>, p: int, n: int)
    requires 0 <= p < n <= b.len(),
    ensures r.sum(c, b, n) == r.sum(c, b.remove(p), n - 1) + r.count(c, b[p]),
    decreases n,
{
    if n - 1 == p { lemma_sum_same(r, c, b, b.remove(p), n - 1); }
    else { lemma_sum_remove(r, c, b, p, n - 1); assert(b.remove(p)[n - 2] == b[n - 1]); }
}
pub proof fn lemma_sum_perm(r: Repo, c: Seq<char>, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.no_duplicates(), b.no_duplicates(), forall|x: Seq<char>| a.contains(x) <==> b.contains(x),
    ensures r.sum(c, a, a.len() as int) == r.sum(c, b, b.len() as int),
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); }
    } else {
        let x = a.last();
        assert(a.contains(x));
        let p = choose|p: int| 0 <= p < b.len() && b[p] == x;
        let a1 = a.drop_last();
        let b1 = b.remove(p);
        assert forall|i: int, j: int| 0 <= i < b1.len() && 0 <= j < b1.len() && i != j implies b1[i] != b1[j] by {
            let i0 = if i < p { i } else { i + 1 };
            let j0 = if j < p { j } else { j + 1 };
            assert(b1[i] == b[i0] && b1[j] == b[j0]);
        }
        assert forall|y: Seq<char>| a1.contains(y) <==> b1.contains(y) by {
            if a1.contains(y) {
                let k = choose|k: int| 0 <= k < a1.len() && a1[k] == y;
                assert(a[k] == y && y != x); assert(a.contains(y));
                let q = choose|q: int| 0 <= q < b.len() && b[q] == y;
                assert(q != p);
                assert(b1[if q < p { q } else { q - 1 }] == y);
            }
            if b1.contains(y) {
                let k = choose|k: int| 0 <= k < b1.len() && b1[k] == y;
                let k0 = if k < p { k } else { k + 1 };
                assert(b[k0] == y && y != x); assert(b.contains(y)); assert(a.contains(y));
                let q = choose|q: int| 0 <= q < a.len() && a[q] == y;
                assert(q != a.len() - 1); assert(a1[q] == y);
            }
        }
        lemma_sum_perm(r, c, a1, b1);
        lemma_sum_remove(r, c, b, p, b.len() as int);
        lemma_sum_same(r, c, a, a1, a1.len() as int);
    }
}
pub proof fn lemma_sum_mono(r: Repo, c: Seq<char>, l: Seq<Seq<char>>, m: int, n: int)
    requires 0 <= m <= n <= l.len(),
    ensures r.sum(c, l, m) <= r.sum(c, l, n), m < n ==> r.count(c, l[m]) + r.sum(c, l, m) <= r.sum(c, l, n),
    decreases n - m,
{ if m < n { lemma_sum_mono(r, c, l, m + 1, n); } }
pub proof fn lemma_lang_list(r: Repo, c: Seq<char>)
    ensures r.lang_list(c).no_duplicates(), forall|t: Seq<char>| #[trigger] r.lang_list(c).contains(t) <==> r.has_lang(c, t),
{
    axiom_sql_details(r.aio_file()); axiom_sql_details(r.own_file(c));
    let a = if r.in_aio(c) { langs(r.aio_file(), c) } else { Seq::empty() };
    let o = if r.in_own(c) { langs(r.own_file(c), c) } else { Seq::empty() };
    let f = |t: Seq<char>| !a.contains(t);
    let b = o.filter(f);
    lemma_filter_set(o, f);
    assert(a.no_duplicates() && o.no_duplicates());
    let l = a + b;
    assert(l == r.lang_list(c));
    assert forall|t: Seq<char>| #[trigger] l.contains(t) <==> a.contains(t) || b.contains(t) by {
        if a.contains(t) { let k = choose|k: int| 0 <= k < a.len() && a[k] == t; assert(l[k] == t); }
        if b.contains(t) { let k = choose|k: int| 0 <= k < b.len() && b[k] == t; assert(l[a.len() + k] == t); }
        if l.contains(t) { let k = choose|k: int| 0 <= k < l.len() && l[k] == t; if k < a.len() { assert(a[k] == t); } else { assert(b[k - a.len()] == t); } }
    }
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
        if i < a.len() { assert(a.contains(a[i])); assert(l[i] == a[i]); } else { assert(b.contains(b[i - a.len()])); assert(l[i] == b[i - a.len()]); }
        if j < a.len() { assert(a.contains(a[j])); assert(l[j] == a[j]); } else { assert(b.contains(b[j - a.len()])); assert(l[j] == b[j - a.len()]); }
    }
}
proof fn lemma_filter_set(s: Seq<Seq<char>>, f: spec_fn(Seq<char>) -> bool)
    requires s.no_duplicates(),
    ensures s.filter(f).no_duplicates(), forall|t: Seq<char>| #[trigger] s.filter(f).contains(t) <==> s.contains(t) && f(t),
    decreases s.len(),
{
    reveal(Seq::filter);
    lemma_seq_facts();
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_set(d, f);
        assert(s =~= d.push(s.last()));
        if d.contains(s.last()) { let k = choose|k: int| 0 <= k < d.len() && d[k] == s.last(); assert(s[k] == s.last()); }
    }
}
// sums over the components
pub proof fn lemma_r_mono(r: Repo, o: Seq<VpK>, m: int, n: int)
    requires 0 <= m <= n <= o.len(),
    ensures r.r_total(o, m) <= r.r_total(o, n), m < n ==> r.r_total(o, m) + r.total(o[m]->S_0) <= r.r_total(o, n),
    decreases n - m,
{ if m < n { lemma_r_mono(r, o, m + 1, n); } }
pub proof fn lemma_r_count(r: Repo, o: Seq<VpK>, n: int, t: Seq<char>)
    requires 0 <= n <= o.len(),
    ensures r.r_count(o, n, t) <= r.r_total(o, n), !r.r_lang(o, n, t) ==> r.r_count(o, n, t) == 0,
    decreases n,
{
    if n > 0 {
        lemma_r_count(r, o, n - 1, t);
        let c = o[n - 1]->S_0;
        if r.has_lang(c, t) {
            lemma_lang_list(r, c);
            let l = r.lang_list(c);
            assert(l.contains(t));
            let k = choose|k: int| 0 <= k < l.len() && l[k] == t;
            lemma_sum_mono(r, c, l, k, l.len() as int);
        }
    }
}
pub proof fn lemma_r_counts(r: Repo, o: Seq<VpK>, n: int)
    requires 0 <= n <= o.len(),
    ensures forall|t: Seq<char>| #[trigger] r.r_count(o, n, t) <= r.r_total(o, n) && (!r.r_lang(o, n, t) ==> r.r_count(o, n, t) == 0),
{
    assert forall|t: Seq<char>| #[trigger] r.r_count(o, n, t) <= r.r_total(o, n) && (!r.r_lang(o, n, t) ==> r.r_count(o, n, t) == 0) by { lemma_r_count(r, o, n, t); }
}
proof fn lemma_l_contributor(r: Repo, c: Seq<char>, l: Seq<Seq<char>>, n: int, x: Seq<char>)
    requires 0 <= n <= l.len(),
    ensures r.l_contributor(c, l, n, x) <==> exists|k: int| 0 <= k < n && r.has_contributor(c, #[trigger] l[k], x),
    decreases n,
{
    if n > 0 { lemma_l_contributor(r, c, l, n - 1, x); }
}
pub proof fn lemma_l_contributors(r: Repo, c: Seq<char>, l: Seq<Seq<char>>)
    requires forall|t: Seq<char>| #[trigger] l.contains(t) <==> r.has_lang(c, t),
    ensures forall|x: Seq<char>| #[trigger] r.l_contributor(c, l, l.len() as int, x) <==> exists|t: Seq<char>| #[trigger] r.has_lang(c, t) && r.has_contributor(c, t, x),
{
    assert forall|x: Seq<char>| #[trigger] r.l_contributor(c, l, l.len() as int, x) <==> exists|t: Seq<char>| #[trigger] r.has_lang(c, t) && r.has_contributor(c, t, x) by {
        lemma_l_contributor(r, c, l, l.len() as int, x);
        if r.l_contributor(c, l, l.len() as int, x) {
            let k = choose|k: int| 0 <= k < l.len() && r.has_contributor(c, #[trigger] l[k], x);
            assert(l.contains(l[k])); assert(r.has_lang(c, l[k]));
        }
        if exists|t: Seq<char>| #[trigger] r.has_lang(c, t) && r.has_contributor(c, t, x) {
            let t = choose|t: Seq<char>| #[trigger] r.has_lang(c, t) && r.has_contributor(c, t, x);
            assert(l.contains(t));
            let k = choose|k: int| 0 <= k < l.len() && l[k] == t;
            assert(r.has_contributor(c, l[k], x));
        }
    }
}
// every entry got its ratio
pub proof fn lemma_rated(a: Map<VpK, LanguageData>, b: Map<VpK, LanguageData>, ord: Seq<VpK>, n: usize)
    requires ord.to_set() == a.dom(), b.dom() == a.dom(), forall|i: int| 0 <= i < ord.len() ==> rated(a[#[trigger] ord[i]], b[ord[i]], n),
    ensures forall|k: VpK| #[trigger] b.contains_key(k) <==> a.contains_key(k), forall|k: VpK| #[trigger] b.contains_key(k) ==> rated(a[k], b[k], n),
{
    assert forall|k: VpK| #[trigger] b.contains_key(k) implies a.contains_key(k) && rated(a[k], b[k], n) by {
        assert(b.dom().contains(k)); assert(ord.to_set().contains(k)); assert(ord.contains(k));
        let i = choose|i: int| 0 <= i < ord.len() && ord[i] == k;
        assert(rated(a[ord[i]], b[ord[i]], n));
    }
    assert forall|k: VpK| a.contains_key(k) implies #[trigger] b.contains_key(k) by { assert(a.dom().contains(k)); assert(b.dom().contains(k)); }
}
// canonical tags keep their text
pub proof fn lemma_canon(conn: Connection)
    ensures canonical(conn) ==> {
        &&& forall|v: Seq<RefCount<LanguageTag>>, c: Seq<char>| #[trigger] are_tags(v, langs(conn, c)) ==> texts(v) == langs(conn, c)
        &&& forall|v: Seq<RefCount<LanguageTag>>, i: Seq<char>, c: Seq<char>| #[trigger] are_tags(v, ident_langs(conn, i, c)) ==> texts(v) == ident_langs(conn, i, c)
        &&& forall|c: Seq<char>| (#[trigger] defaults(conn, c)).len() > 0 ==> canon_tag(defaults(conn, c).last())
    },
{
    axiom_sql_details(conn);
    if canonical(conn) {
        assert forall|v: Seq<RefCount<LanguageTag>>, c: Seq<char>| #[trigger] are_tags(v, langs(conn, c)) implies texts(v) == langs(conn, c) by {
            let l = langs(conn, c);
            assert forall|n: int| 0 <= n < l.len() implies #[trigger] texts(v)[n] == l[n] by { assert(l.contains(l[n])); assert(tag_of(l[n]) == Ok::<RefCount<LanguageTag>, RegistryError>(v[n])); }
            assert(texts(v) =~= l);
        }
        assert forall|v: Seq<RefCount<LanguageTag>>, i: Seq<char>, c: Seq<char>| #[trigger] are_tags(v, ident_langs(conn, i, c)) implies texts(v) == ident_langs(conn, i, c) by {
            let l = ident_langs(conn, i, c);
            assert forall|n: int| 0 <= n < l.len() implies #[trigger] texts(v)[n] == l[n] by { assert(l.contains(l[n])); assert(tag_of(l[n]) == Ok::<RefCount<LanguageTag>, RegistryError>(v[n])); }
            assert(texts(v) =~= l);
        }
        assert forall|c: Seq<char>| (#[trigger] defaults(conn, c)).len() > 0 implies canon_tag(defaults(conn, c).last()) by {
            assert(defaults(conn, c).contains(defaults(conn, c).last()));
        }
    }
}
@file crates/provider/sqlite3/src/provider.rs
@fn query_languages
    requires schema_version@ == "1.0"@,
    ensures r@ == q_languages(), // [?]
@fn query_identifier_languages
    requires schema_version@ == "1.0"@,
    ensures r@ == q_identifier(), // [?]
@fn query_contributors
    requires schema_version@ == "1.0"@,
    ensures r@ == q_contributors(), // [?]
@fn query_count
    requires schema_version@ == "1.0"@,
    ensures r@ == q_count(), // [?]
@fn query_default
    requires schema_version@ == "1.0"@,
    ensures r@ == q_default(), // [?]
@fn LocalisationProviderSqlite3::languages
@spec
    requires self.wf(),
    ensures
        !self.has(component@, all_in_one) ==> r is Err && r->Err_0 is ComponentNotFound, // [P04]
        r is Ok ==> are_tags(r->Ok_0@, langs(self.file(component@, all_in_one), component@)), // [P04]
        r is Ok && canonical(self.file(component@, all_in_one)) ==> texts(r->Ok_0@) == langs(self.file(component@, all_in_one), component@), // [P04]
        self.has(component@, all_in_one) && good_all(self.file(component@, all_in_one)) ==> r is Ok, // [P04]
@entry
    let mut vp_now: Ghost<int> = vp_clock();
    let ghost conn: Connection = self.file(component@, all_in_one);
    proof { reveal_strlit("Languages"); reveal_strlit("Aio"); axiom_sql_details(conn); lemma_tags(conn); lemma_canon(conn); }
@loop 0
    invariant
        conn == self.file(component@, all_in_one), self.has(component@, all_in_one),
        rows.of() == conn, rows.at() <= rows.all().len(),
        rows.all() == columns(langs(conn, component@)), are_tags(languages@, langs(conn, component@).take(rows.at() as int)),
        good_all(conn) ==> all_tags(langs(conn, component@)),
    ensures rows.at() == rows.all().len(), are_tags(languages@, langs(conn, component@)),
    decreases rows.all().len() - rows.at(),
@fn LocalisationProviderSqlite3::identifier_languages
@spec
    requires self.wf(),
    ensures
        !self.has(component@, all_in_one) ==> r is Err && r->Err_0 is ComponentNotFound, // [P04]
        r is Ok ==> are_tags(r->Ok_0@, ident_langs(self.file(component@, all_in_one), identifier@, component@)), // [P04]
        r is Ok && canonical(self.file(component@, all_in_one)) ==> texts(r->Ok_0@) == ident_langs(self.file(component@, all_in_one), identifier@, component@), // [P04]
        self.has(component@, all_in_one) && good_all(self.file(component@, all_in_one)) ==> r is Ok, // [P04]
@entry
    let mut vp_now: Ghost<int> = vp_clock();
    let ghost conn: Connection = self.file(component@, all_in_one);
    proof { reveal_strlit("Identifier"); reveal_strlit("Aio"); axiom_sql_details(conn); lemma_tags(conn); lemma_canon(conn); }
@loop 0
    invariant
        conn == self.file(component@, all_in_one), self.has(component@, all_in_one),
        rows.of() == conn, rows.at() <= rows.all().len(),
        rows.all() == columns(ident_langs(conn, identifier@, component@)), are_tags(languages@, ident_langs(conn, identifier@, component@).take(rows.at() as int)),
        good_all(conn) ==> all_tags(ident_langs(conn, identifier@, component@)),
    ensures rows.at() == rows.all().len(), are_tags(languages@, ident_langs(conn, identifier@, component@)),
    decreases rows.all().len() - rows.at(),
@fn LocalisationProviderSqlite3::contributors
@spec
    requires self.wf(),
    ensures
        !self.has(component@, all_in_one) ==> r is Err && r->Err_0 is ComponentNotFound, // [P04]
        r is Ok ==> texts(r->Ok_0@) == contribs(self.file(component@, all_in_one), (**language_tag).tag@, component@), // [P04]
        self.has(component@, all_in_one) && good_all(self.file(component@, all_in_one)) ==> r is Ok, // [P04]
@entry
    let mut vp_now: Ghost<int> = vp_clock();
    let ghost conn: Connection = self.file(component@, all_in_one);
    proof { reveal_strlit("Contributors"); reveal_strlit("Aio"); axiom_sql_details(conn); lemma_seq_facts(); }
@loop 0
    invariant
        conn == self.file(component@, all_in_one), self.has(component@, all_in_one),
        rows.of() == conn, rows.at() <= rows.all().len(),
        rows.all() == columns(contribs(conn, (**language_tag).tag@, component@)), seq_facts(),
        texts(contributors@) =~= contribs(conn, (**language_tag).tag@, component@).take(rows.at() as int),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@fn LocalisationProviderSqlite3::count
@spec
    requires self.wf(),
    ensures
        !self.has(component@, all_in_one) ==> r is Err && r->Err_0 is ComponentNotFound, // [P04]
        r is Ok ==> r->Ok_0 == count_of(self.file(component@, all_in_one), (**language_tag).tag@, component@), // [P04]
        self.has(component@, all_in_one) && good_all(self.file(component@, all_in_one)) ==> r is Ok, // [P04]
@entry
    let mut vp_now: Ghost<int> = vp_clock();
    let ghost conn: Connection = self.file(component@, all_in_one);
    proof { reveal_strlit("Count"); reveal_strlit("Aio"); axiom_sql_details(conn); lemma_count(conn, (**language_tag).tag@, component@); }
@loop 0
    invariant
        conn == self.file(component@, all_in_one), self.has(component@, all_in_one),
        rows.of() == conn, rows.at() <= rows.all().len(),
        rows.all() == seq![seq![Cell::Int(count_of(conn, (**language_tag).tag@, component@))]], count_of(conn, (**language_tag).tag@, component@) <= usize::MAX,
        rows.at() == 1 ==> count == count_of(conn, (**language_tag).tag@, component@),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@fn LocalisationProviderSqlite3::default_language
@spec
    requires self.wf(),
    ensures
        !self.has(component@, all_in_one) ==> r is Err && r->Err_0 is ComponentNotFound, // [P04]
        r is Ok && defaults(self.file(component@, all_in_one), component@).len() > 0 && canonical(self.file(component@, all_in_one)) ==> r->Ok_0 is Some && (*r->Ok_0->Some_0).tag@ == defaults(self.file(component@, all_in_one), component@).last(), // [P04]
        r is Ok && defaults(self.file(component@, all_in_one), component@).len() == 0 ==> r->Ok_0 is None, // [P04]
        r is Ok && defaults(self.file(component@, all_in_one), component@).len() > 0 ==> r->Ok_0 is Some && tag_of(defaults(self.file(component@, all_in_one), component@).last()) == Ok::<RefCount<LanguageTag>, RegistryError>(r->Ok_0->Some_0), // [P04]
        self.has(component@, all_in_one) && good_all(self.file(component@, all_in_one)) ==> r is Ok, // [P04]
@entry
    let mut vp_now: Ghost<int> = vp_clock();
    let ghost conn: Connection = self.file(component@, all_in_one);
    proof { reveal_strlit("Default"); reveal_strlit("Aio"); axiom_sql_details(conn); lemma_tags(conn); lemma_canon(conn); }
@loop 0
    invariant
        conn == self.file(component@, all_in_one), self.has(component@, all_in_one),
        rows.of() == conn, rows.at() <= rows.all().len(),
        rows.all() == columns(defaults(conn, component@)), rows.at() == 0 ==> tag is None,
        rows.at() > 0 ==> tag is Some && tag_of(defaults(conn, component@)[rows.at() - 1]) == Ok::<RefCount<LanguageTag>, RegistryError>(tag->Some_0),
        good_all(conn) ==> all_tags(defaults(conn, component@)),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@fn LocalisationProviderSqlite3::build_cache
@mutself
@spec
    requires old(self).wf(), old(self).repo().canonical(), old(self).cells_ok(), old(self).empty_cells(),
    ensures
        final(self).same_data(old(self)), final(self).cells_ok(), // [P04]
        r is Ok ==> final(self).filled(), // [P04]
        old(self).repo().complete() ==> r is Ok, // [P04]
@entry
    let ghost r0: Repo = self.repo();
    let ghost o: Seq<VpK> = self.components.order();
    proof { lemma_seq_facts(); axiom_small(self); vp_axiom_order(&self.components); }
@loop 0
    invariant
        seq_facts(), self.wf(), self == old(self), old(self).cells_ok(), old(self).empty_cells(), r0 == self.repo(), r0.canonical(), o == self.components.order(),
        o.no_duplicates(), o.to_set() == self.components@.dom(), r0.r_total(o, o.len() as int) <= usize::MAX,
        vp_it0.of() == self.components, vp_it0.pos() <= o.len(),
        repository_details.components@.len() == vp_it0.pos(), forall|n: int| 0 <= n < vp_it0.pos() ==> o[n] == VpK::S((#[trigger] repository_details.components@[n])@),
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) <==> k is T && r0.r_lang(o, vp_it0.pos() as int, k->T_0),
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) ==> repository_details.languages@[k].count == r0.r_count(o, vp_it0.pos() as int, k->T_0),
        repository_details.total_strings == r0.r_total(o, vp_it0.pos() as int),
        texts(repository_details.contributors@).no_duplicates(),
        forall|x: Seq<char>| #[trigger] texts(repository_details.contributors@).contains(x) <==> r0.r_contributor(o, vp_it0.pos() as int, x),
        repository_details.default is Some <==> o.take(vp_it0.pos() as int).contains(VpK::S(application())),
        repository_details.default is Some ==> r0.default(application()) == Some((*repository_details.default->Some_0).tag@) && r0.r_lang(o, vp_it0.pos() as int, (*repository_details.default->Some_0).tag@),
        forall|k: VpK| #[trigger] components_details@.contains_key(k) <==> o.take(vp_it0.pos() as int).contains(k),
        forall|k: VpK| #[trigger] components_details@.contains_key(k) ==> k is S && details_ok(r0, k->S_0, *components_details@[k]),
    ensures vp_it0.pos() == o.len(),
    decreases o.len() - vp_it0.pos(),
@head 0
    let ghost n0: int = vp_it0.pos() - 1;
    let ghost c: Seq<char> = component.0@;
    proof {
        lemma_order_take(o, n0); lemma_r_counts(r0, o, n0); lemma_r_mono(r0, o, n0, o.len() as int); lemma_lang_list(r0, c);
        axiom_sql_details(r0.aio_file()); axiom_sql_details(r0.own_file(c));
        assert(self.components@.dom().contains(o[n0]));
    }
@after 0
    proof {
        assert(o.take(o.len() as int) =~= o);
        assert forall|k: VpK| #[trigger] o.contains(k) <==> r0.comps.contains_key(k) by { assert(o.to_set().contains(k) <==> o.contains(k)); }
    }
@before 1
    let ghost rd1 = repository_details;
@loop 1
    invariant
        seq_facts(), vp_it1.of() == languages@, vp_it1.pos() <= languages@.len(),
        repository_details.components == rd1.components, repository_details.total_strings == rd1.total_strings, repository_details.contributors == rd1.contributors, repository_details.default == rd1.default,
        forall|t: Seq<char>| #[trigger] r0.r_count(o, n0, t) <= r0.r_total(o, n0) && (!r0.r_lang(o, n0, t) ==> r0.r_count(o, n0, t) == 0),
        forall|k: VpK| #[trigger] component_details.languages@.contains_key(k) <==> k is T && texts(languages@).take(vp_it1.pos() as int).contains(k->T_0),
        forall|k: VpK| #[trigger] component_details.languages@.contains_key(k) ==> fresh(component_details.languages@[k]),
        component_details.total_strings == 0,
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) <==> k is T && (r0.r_lang(o, n0, k->T_0) || texts(languages@).take(vp_it1.pos() as int).contains(k->T_0)),
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) ==> repository_details.languages@[k].count == r0.r_count(o, n0, k->T_0),
    ensures vp_it1.pos() == languages@.len(),
    decreases languages@.len() - vp_it1.pos(),
@head 1
    proof { lemma_take(texts(languages@), vp_it1.pos() - 1); }
@before 2
    let ghost rd2 = repository_details;
    let ghost la: Seq<Seq<char>> = texts(languages@);
@loop 2
    invariant
        seq_facts(), vp_it2.of() == languages_separate@, vp_it2.pos() <= languages_separate@.len(),
        repository_details.components == rd2.components, repository_details.total_strings == rd2.total_strings, repository_details.contributors == rd2.contributors, repository_details.default == rd2.default,
        forall|t: Seq<char>| #[trigger] r0.r_count(o, n0, t) <= r0.r_total(o, n0) && (!r0.r_lang(o, n0, t) ==> r0.r_count(o, n0, t) == 0),
        texts(languages@).no_duplicates(),
        forall|t: Seq<char>| #[trigger] texts(languages@).contains(t) <==> la.contains(t) || texts(languages_separate@).take(vp_it2.pos() as int).contains(t),
        forall|k: VpK| #[trigger] component_details.languages@.contains_key(k) <==> k is T && texts(languages@).contains(k->T_0),
        forall|k: VpK| #[trigger] component_details.languages@.contains_key(k) ==> fresh(component_details.languages@[k]),
        component_details.total_strings == 0,
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) <==> k is T && (r0.r_lang(o, n0, k->T_0) || texts(languages@).contains(k->T_0)),
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) ==> repository_details.languages@[k].count == r0.r_count(o, n0, k->T_0),
    ensures vp_it2.pos() == languages_separate@.len(),
    decreases languages_separate@.len() - vp_it2.pos(),
@head 2
    proof { lemma_take(texts(languages_separate@), vp_it2.pos() - 1); }
@before 3
    let ghost l: Seq<Seq<char>> = texts(languages@);
    let ghost rd3 = repository_details;
    let ghost cd3 = component_details;
    proof {
        lemma_sum_perm(r0, c, l, r0.lang_list(c)); lemma_l_contributors(r0, c, l);
    }
@loop 3
    invariant
        seq_facts(), self.wf(), self == old(self), old(self).cells_ok(), old(self).empty_cells(), r0 == self.repo(), r0.canonical(),
        l == texts(languages@), l.no_duplicates(), forall|t: Seq<char>| #[trigger] l.contains(t) <==> r0.has_lang(c, t), c == component.0@,
        vp_it3.of() == languages@, vp_it3.pos() <= languages@.len(),
        r0.comps.contains_key(VpK::S(c)), component.1.0 == r0.in_aio(c), component.1.1 == r0.in_own(c),
        repository_details.components == rd3.components, repository_details.default == rd3.default, component_details.default == cd3.default,
        forall|k: VpK| #[trigger] component_details.languages@.contains_key(k) <==> k is T && l.contains(k->T_0),
        forall|k: VpK| #[trigger] component_details.languages@.contains_key(k) ==> if l.take(vp_it3.pos() as int).contains(k->T_0) { data_ok(r0, c, k->T_0, component_details.languages@[k]) } else { fresh(component_details.languages@[k]) },
        component_details.total_strings == r0.sum(c, l, vp_it3.pos() as int),
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) <==> k is T && (r0.r_lang(o, n0, k->T_0) || l.contains(k->T_0)),
        forall|k: VpK| #[trigger] repository_details.languages@.contains_key(k) ==> repository_details.languages@[k].count == r0.r_count(o, n0, k->T_0) + if l.take(vp_it3.pos() as int).contains(k->T_0) { r0.count(c, k->T_0) } else { 0 },
        repository_details.total_strings == r0.r_total(o, n0) + r0.sum(c, l, vp_it3.pos() as int),
        texts(repository_details.contributors@).no_duplicates(),
        forall|x: Seq<char>| #[trigger] texts(repository_details.contributors@).contains(x) <==> r0.r_contributor(o, n0, x) || r0.l_contributor(c, l, vp_it3.pos() as int, x),
        r0.r_total(o, n0) + r0.sum(c, l, l.len() as int) <= usize::MAX,
        forall|t: Seq<char>| #[trigger] r0.r_count(o, n0, t) <= r0.r_total(o, n0) && (!r0.r_lang(o, n0, t) ==> r0.r_count(o, n0, t) == 0),
    ensures vp_it3.pos() == languages@.len(),
    decreases languages@.len() - vp_it3.pos(),
@head 3
    let ghost t: Seq<char> = (**language).tag@;
    proof {
        lemma_take(l, vp_it3.pos() - 1); lemma_sum_mono(r0, c, l, vp_it3.pos() - 1, l.len() as int);
        axiom_sql_details(r0.aio_file()); axiom_sql_details(r0.own_file(c));
        assert(t == l[vp_it3.pos() - 1]);
        assert(!l.take(vp_it3.pos() - 1).contains(t));
    }
@before 4
    let ghost rd4 = repository_details;
    let ghost ld4 = *language_data;
@loop 4
    invariant
        seq_facts(), *language_data == ld4, vp_it4.of() == language_data.contributors@, vp_it4.pos() <= language_data.contributors@.len(),
        repository_details.components == rd4.components, repository_details.total_strings == rd4.total_strings, repository_details.languages == rd4.languages, repository_details.default == rd4.default,
        texts(repository_details.contributors@).no_duplicates(),
        forall|x: Seq<char>| #[trigger] texts(repository_details.contributors@).contains(x) <==> texts(rd4.contributors@).contains(x) || texts(language_data.contributors@).take(vp_it4.pos() as int).contains(x),
    ensures vp_it4.pos() == language_data.contributors@.len(),
    decreases language_data.contributors@.len() - vp_it4.pos(),
@head 4
    proof { lemma_take(texts(language_data.contributors@), vp_it4.pos() - 1); }
@before 5
    let ghost rd5 = repository_details;
    let ghost ld5 = *language_data;
@loop 5
    invariant
        seq_facts(), vp_it5.of() == contributors_separate@, vp_it5.pos() <= contributors_separate@.len(),
        repository_details.components == rd5.components, repository_details.total_strings == rd5.total_strings, repository_details.languages == rd5.languages, repository_details.default == rd5.default,
        language_data.count == ld5.count,
        texts(repository_details.contributors@).no_duplicates(),
        forall|x: Seq<char>| #[trigger] texts(repository_details.contributors@).contains(x) <==> texts(rd5.contributors@).contains(x) || texts(contributors_separate@).take(vp_it5.pos() as int).contains(x),
        texts(language_data.contributors@).no_duplicates(),
        forall|x: Seq<char>| #[trigger] texts(language_data.contributors@).contains(x) <==> texts(ld5.contributors@).contains(x) || texts(contributors_separate@).take(vp_it5.pos() as int).contains(x),
    ensures vp_it5.pos() == contributors_separate@.len(),
    decreases contributors_separate@.len() - vp_it5.pos(),
@head 5
    proof { lemma_take(texts(contributors_separate@), vp_it5.pos() - 1); }
@before 6
    let ghost of6 = vp_it6.of();
    let ghost fin6 = vp_it6.fin();
    let ghost ord6 = vp_it6.order();
@loop 6
    invariant
        vp_it6.of() == of6, vp_it6.fin() == fin6, vp_it6.order() == ord6, vp_it6.pos() <= ord6.len(),
        forall|n: int| 0 <= n < vp_it6.pos() ==> rated(of6[#[trigger] ord6[n]], fin6[ord6[n]], _count),
    ensures vp_it6.pos() == ord6.len(),
    decreases ord6.len() - vp_it6.pos(),
@after 6
    proof { lemma_rated(of6, fin6, ord6, _count); }
@before 7
    let ghost of7 = vp_it7.of();
    let ghost fin7 = vp_it7.fin();
    let ghost ord7 = vp_it7.order();
@loop 7
    invariant
        vp_it7.of() == of7, vp_it7.fin() == fin7, vp_it7.order() == ord7, vp_it7.pos() <= ord7.len(),
        forall|n: int| 0 <= n < vp_it7.pos() ==> rated(of7[#[trigger] ord7[n]], fin7[ord7[n]], _count),
    ensures vp_it7.pos() == ord7.len(),
    decreases ord7.len() - vp_it7.pos(),
@after 7
    proof { lemma_rated(of7, fin7, ord7, _count); }
@fn LocalisationProviderSqlite3::component_details
@mutself
@spec
    requires old(self).wf(), old(self).repo().canonical(), old(self).cells_ok(),
    ensures
        final(self).same_data(old(self)), final(self).cells_ok(), // [P04]
        final(self).keeps_components(old(self)), // [P04]
        r is Ok ==> old(self).known(component@) && details_ok(old(self).repo(), component@, *r->Ok_0), // [P04]
        old(self).repo().complete() && old(self).known(component@) ==> r is Ok, // [P04]
        old(self).repo().complete() && !old(self).known(component@) ==> r is Err && r->Err_0 is ComponentNotFound && r->Err_0->ComponentNotFound_0@ == component@, // [P04]
@fn LocalisationProviderSqlite3::repository_details
@mutself
@spec
    requires old(self).wf(), old(self).repo().canonical(), old(self).cells_ok(),
    ensures
        final(self).same_data(old(self)), final(self).cells_ok(), // [P04]
        final(self).keeps_repository(old(self)), // [P04]
        r is Ok ==> repository_ok(old(self).repo(), old(self).components.order(), *r->Ok_0), // [P04]
        old(self).repo().complete() ==> r is Ok, // [P04]
@fn LocalisationProviderSqlite3::identifier_details
@mutself
@spec
    requires old(self).wf(), old(self).repo().canonical(), old(self).cells_ok(),
    ensures
        final(self).same_data(old(self)), final(self).cells_ok(), // [P04]
        r is Ok ==> old(self).known(component@) && ident_ok(old(self).repo(), component@, identifier@, r->Ok_0), // [P04]
        old(self).repo().complete() && old(self).known(component@) ==> r is Ok, // [P04]
        old(self).repo().complete() && !old(self).known(component@) ==> r is Err && r->Err_0 is ComponentNotFound && r->Err_0->ComponentNotFound_0@ == component@, // [P04]
@entry
    let ghost r0: Repo = self.repo();
    proof { lemma_seq_facts(); }
@before 0
    let ghost la: Seq<Seq<char>> = texts(languages@);
    let ghost sep: Seq<Seq<char>> = texts(vp_it0.of());
@loop 0
    invariant
        seq_facts(), texts(vp_it0.of()) == sep, vp_it0.pos() <= sep.len(),
        forall|t: Seq<char>| #[trigger] texts(languages@).contains(t) <==> la.contains(t) || sep.take(vp_it0.pos() as int).contains(t),
    ensures vp_it0.pos() == sep.len(),
    decreases sep.len() - vp_it0.pos(),
@head 0
    proof { lemma_take(sep, vp_it0.pos() - 1); }
