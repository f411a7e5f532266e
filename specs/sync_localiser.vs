@unit sync_localiser
@features sync
@include common.vs
@include map.vs
@include types.vs
@prelude
// ---- trusted: cells shared with other threads ---------------------------------------------------
// the cache behind its RwLock. v: its content as this thread last knew it; seen: its content when this thread last locked it
pub struct SharedCache { pub v: HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>, pub seen: Ghost<Map<VpK, HashMap<CacheKey, CacheData>>> }
impl SharedCache {
    #[verifier::external_body]
    pub fn new(v: HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>) -> (r: SharedCache) ensures r.v == v, r.seen@ == v@ { unimplemented!() }
}
// what every thread keeps to, from lock to release: no cached string is removed
pub open spec fn cache_grew(a: Map<VpK, HashMap<CacheKey, CacheData>>, b: Map<VpK, HashMap<CacheKey, CacheData>>) -> bool {
    forall|t: VpK| #![trigger a.contains_key(t)] #![trigger b.contains_key(t)] a.contains_key(t) ==> b.contains_key(t) && strings_grew(a[t]@, b[t]@)
}
pub open spec fn strings_grew(a: Map<VpK, CacheData>, b: Map<VpK, CacheData>) -> bool {
    forall|k: VpK| #![trigger a.contains_key(k)] #![trigger b.contains_key(k)] a.contains_key(k) ==> b.contains_key(k)
}
// locking the cache: other threads had their turns since, and kept every entry to what is found without the cache;
// the content stays as it is from here to the release
#[verifier::external_body]
pub fn vp_locked(c: &mut SharedCache, p: &Provider)
    requires cache_ok(*p, old(c).v@), cache_grew(old(c).seen@, old(c).v@),
    ensures cache_ok(*p, final(c).v@), cache_grew(old(c).v@, final(c).v@), final(c).seen@ == final(c).v@,
{ unimplemented!() }
// the defaults: other threads may change them at any time, so that a reading gives a value that they had during the call
pub uninterp spec fn was_fallback(b: bool) -> bool;
pub uninterp spec fn was_language(t: RefCount<LanguageTag>) -> bool;
pub uninterp spec fn was_script(s: Option<ScriptData>) -> bool;
#[verifier::external_body]
pub fn vp_fallback(l: &Localiser) -> (r: &bool) ensures was_fallback(*r) { unimplemented!() }
#[verifier::external_body]
pub fn vp_caching(l: &Localiser) -> (r: &bool) { unimplemented!() }
#[verifier::external_body]
pub fn vp_language(l: &Localiser) -> (r: &RefCount<LanguageTag>) ensures was_language(*r) { unimplemented!() }
#[verifier::external_body]
pub fn vp_script(l: &Localiser) -> (r: &Option<ScriptData>) ensures was_script(*r) { unimplemented!() }
@retype MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>> =>> SharedCache
@retype MutCell<$T> =>> $T
@rewrite MutCell::new(HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new()) =>> SharedCache::new(HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new())
@rewrite MutCell::new($x) =>> $x
@rewrite self.cache.read().unwrap() =>> ({ vp_locked(&mut self.cache, &self.localisation_provider); &self.cache.v })
@rewrite self.cache.write().unwrap() =>> ({ vp_locked(&mut self.cache, &self.localisation_provider); &mut self.cache.v })
@rewrite self.fallback.read().unwrap() =>> vp_fallback(self)
@rewrite self.caching.read().unwrap() =>> vp_caching(self)
@rewrite self.language_tag.read().unwrap() =>> vp_language(self)
@rewrite self.language_script_data.read().unwrap() =>> vp_script(self)
@rewrite (&mut $x).format($a, $b) =>> vp_cell_format($x, $a, $b)
@rewrite $x.write().unwrap() =>> (&mut $x)
@include localiser_base.vs
@mid
impl Localiser {
    pub open spec fn cached(&self) -> Map<VpK, HashMap<CacheKey, CacheData>> { self.cache.v@ }
    pub open spec fn ready(&self) -> bool { self.inv() && cache_grew(self.cache.seen@, self.cache.v@) }
    pub open spec fn later_but_defaults(&self, o: &Localiser) -> bool {
        self.ready() && self.localisation_provider == o.localisation_provider && cache_grew(o.cache.v@, self.cache.v@)
    }
    pub open spec fn later(&self, o: &Localiser) -> bool {
        self.ready() && self.same_but_cache(o) && cache_grew(o.cache.v@, self.cache.v@)
    }
}
@fn Localiser::try_new
@props Y01
@spec
    ensures
        r is Ok <==> tag_of(language_tag@) is Ok, // [Y01]
        r is Ok ==> r->Ok_0.language_tag == tag_of(language_tag@)->Ok_0 && r->Ok_0.fallback == fallback && r->Ok_0.caching == caching, // [Y01]
        r is Ok ==> r->Ok_0.inv() && r->Ok_0.localisation_provider == localisation_provider, // [Y01]
        r is Ok ==> r->Ok_0.language_script_data == script_of((*r->Ok_0.language_tag).tag@), // [Y01]

@fn Localiser::format
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        fallback is Some ==> out(r) == format_out(old(self).localisation_provider, component@, identifier@, pvs(values@), (**language_tag).tag@, fallback->Some_0), // [Y01]
        fallback is None ==> exists|b: bool| #[trigger] was_fallback(b) && out(r) == format_out(old(self).localisation_provider, component@, identifier@, pvs(values@), (**language_tag).tag@, b), // [Y01]

@fn Localiser::format_with_defaults
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        exists|t: RefCount<LanguageTag>, b: bool| #[trigger] was_language(t) && #[trigger] was_fallback(b) && out(r) == format_out(old(self).localisation_provider, component@, identifier@, pvs(values@), (*t).tag@, b), // [Y01]

@fn Localiser::literal
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        fallback is Some ==> out(r) == resolve(old(self).localisation_provider, component@, identifier@, (**language_tag).tag@, fallback->Some_0), // [Y01]
        fallback is None ==> exists|b: bool| #[trigger] was_fallback(b) && out(r) == resolve(old(self).localisation_provider, component@, identifier@, (**language_tag).tag@, b), // [Y01]

@fn Localiser::literal_with_defaults
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        exists|t: RefCount<LanguageTag>, b: bool| #[trigger] was_language(t) && #[trigger] was_fallback(b) && out(r) == resolve(old(self).localisation_provider, component@, identifier@, (*t).tag@, b), // [Y01]

@fn Localiser::defaults
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures
        final(self).later_but_defaults(old(self)), r is Ok, // [Y01]
        final(self).language_tag == (if language_tag is Some { language_tag->Some_0 } else { old(self).language_tag }), // [Y01]
        final(self).fallback == (if fallback is Some { fallback->Some_0 } else { old(self).fallback }), // [Y01]
        final(self).caching == (if caching is Some { caching->Some_0 } else { old(self).caching }), // [Y01]
        // the script data of a language that was the default during the call (the given one, or another thread's)
        language_tag is None ==> final(self).language_script_data == old(self).language_script_data, // [Y01]
        language_tag is Some ==> exists|t: RefCount<LanguageTag>| #[trigger] was_language(t) && final(self).language_script_data == script_of((*t).tag@), // [Y01]

@fn Localiser::default_language
@props Y01
@spec
    ensures was_language(r), // [Y01]

@fn Localiser::script_data
@props Y01
@spec
    ensures was_script(r), // [Y01]

@fn Localiser::script_data_for_language_tag
@props Y01
@spec
    ensures r == script_of((**tag).tag@), // [Y01]

@fn Localiser::format_localisation_data
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        fallback is Some ==> data_out(old(self).localisation_provider, *data, (**language_tag).tag@, fallback->Some_0, out(r)), // [Y01]
        fallback is None ==> exists|b: bool| #[trigger] was_fallback(b) && data_out(old(self).localisation_provider, *data, (**language_tag).tag@, b, out(r)), // [Y01]

@fn Localiser::format_localisation_data_with_defaults
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        exists|t: RefCount<LanguageTag>, b: bool| #[trigger] was_language(t) && #[trigger] was_fallback(b) && data_out(old(self).localisation_provider, *data, (*t).tag@, b, out(r)), // [Y01]

@fn Localiser::format_error
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        fallback is Some ==> data_out(old(self).localisation_provider, error.data(), (**language_tag).tag@, fallback->Some_0, out(r)), // [Y01]
        fallback is None ==> exists|b: bool| #[trigger] was_fallback(b) && data_out(old(self).localisation_provider, error.data(), (**language_tag).tag@, b, out(r)), // [Y01]

@fn Localiser::format_error_with_defaults
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        exists|t: RefCount<LanguageTag>, b: bool| #[trigger] was_language(t) && #[trigger] was_fallback(b) && data_out(old(self).localisation_provider, error.data(), (*t).tag@, b, out(r)), // [Y01]

@fn Localiser::actual_format
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        out(r) == format_out(old(self).localisation_provider, component@, identifier@, pvs(values@), (**language_tag).tag@, fallback), // [Y01]

@fn Localiser::actual_literal
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        out(r) == resolve(old(self).localisation_provider, component@, identifier@, (**language_tag).tag@, fallback), // [Y01]

@fn Localiser::actual_format_localisation_data
@mutself
@props Y01
@spec
    requires old(self).ready(),
    ensures final(self).later(old(self)), // [Y01]
        data_out(old(self).localisation_provider, *data, (**language_tag).tag@, fallback, out(r)), // [Y01]
    decreases height(*data),
@entry
    proof { axiom_height(*data); }
    let ghost p0 = self.localisation_provider;
    let ghost t0 = (**language_tag).tag@;
@before 0
    proof { vp_axiom_order(&data.values->Some_0); }
@loop 0
    invariant
        self.later(old(self)), p0 == old(self).localisation_provider, t0 == (**language_tag).tag@,
        data.values is Some, vp_it0.of() == data.values->Some_0, vp_it0.pos() <= vp_it0.of().order().len(),
        vp_it0.of().order().no_duplicates(), vp_it0.of().order().to_set() == vp_it0.of()@.dom(),
        forall|k: VpK| data.values is Some && (#[trigger] data.values->Some_0@.contains_key(k)) && data.values->Some_0@[k] is LocalisationData ==> height(data.values->Some_0@[k]->LocalisationData_0) < height(*data),
        forall|k: VpK| #[trigger] values_new@.contains_key(k) <==> vp_it0.of().order().take(vp_it0.pos() as int).contains(k),
        forall|k: VpK| #[trigger] values_new@.contains_key(k) ==> nested_value(p0, *data, k, pv(values_new@[k]), t0, fallback),
    ensures vp_it0.pos() == vp_it0.of().order().len(),
    decreases vp_it0.of().order().len() - vp_it0.pos(),
@head 0
    let ghost n0 = vp_it0.pos() - 1;
    proof {
        lemma_order_step(vp_it0.of().order(), n0);
        let k = vp_it0.of().order()[n0];
        assert(data.values->Some_0@.contains_key(k));
        if data.values->Some_0@[k] is LocalisationData { lemma_nested_error(p0, *data, k, t0, fallback); }
    }
@after 0
    proof {
        assert(vp_it0.of().order().take(vp_it0.pos() as int) =~= vp_it0.of().order());
        assert(values_new@.dom() =~= data.values->Some_0@.dom()) by {
            assert forall|k: VpK| values_new@.dom().contains(k) <==> data.values->Some_0@.dom().contains(k) by {
                assert(values_new@.contains_key(k) <==> vp_it0.of().order().contains(k));
                assert(vp_it0.of().order().to_set().contains(k) <==> vp_it0.of().order().contains(k));
            }
        }
        lemma_nested_values(p0, *data, values_new@, t0, fallback);
    }

@fn Localiser::add_string_to_cache
@mutself
@props Y01
@spec
    requires
        old(self).ready(),
        entry_ok(old(self).localisation_provider, (**language_tag).tag@, combined.kv(), CacheData::Localised(*string, *tag)),
    ensures final(self).later(old(self)), // [Y01]
