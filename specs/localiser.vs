@unit localiser
@include common.vs
@include map.vs
@include types.vs
@retype MutCell<$T> =>> $T
@rewrite MutCell::new($x) =>> $x
@rewrite $x.borrow() =>> (&$x)
@rewrite $x.borrow_mut() =>> (&mut $x)
@rewrite (&mut $x).format($a, $b) =>> vp_cell_format($x, $a, $b)
@rewrite $x.replace($v) =>> vp_replace(&mut $x, $v)
@include localiser_base.vs
@mid
impl Localiser { pub open spec fn cached(&self) -> Map<VpK, HashMap<CacheKey, CacheData>> { self.cache@ } }

@fn Localiser::try_new
@props K03
@spec
    ensures
        r is Ok <==> tag_of(language_tag@) is Ok, // [K03]
        r is Ok ==> r->Ok_0.language_tag == tag_of(language_tag@)->Ok_0 && r->Ok_0.fallback == fallback && r->Ok_0.caching == caching, // [K03]
        r is Ok ==> r->Ok_0.inv() && r->Ok_0.localisation_provider == localisation_provider, // [K01]
        r is Ok ==> r->Ok_0.language_script_data == script_of((*r->Ok_0.language_tag).tag@), // [K03] [S02]

@fn Localiser::format
@mutself
@props K01 K02 K03
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        out(r) == format_out(old(self).localisation_provider, component@, identifier@, pvs(values@), (**language_tag).tag@, if fallback is Some { fallback->Some_0 } else { old(self).fallback }), // [K01] [K02] [K03]

@fn Localiser::format_with_defaults
@mutself
@props K01 K02 K03
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        out(r) == format_out(old(self).localisation_provider, component@, identifier@, pvs(values@), (*old(self).language_tag).tag@, old(self).fallback), // [K01] [K02] [K03]

@fn Localiser::literal
@mutself
@props K01 K02 K03
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        out(r) == resolve(old(self).localisation_provider, component@, identifier@, (**language_tag).tag@, if fallback is Some { fallback->Some_0 } else { old(self).fallback }), // [K01] [K02] [K03]

@fn Localiser::literal_with_defaults
@mutself
@props K01 K02 K03
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        out(r) == resolve(old(self).localisation_provider, component@, identifier@, (*old(self).language_tag).tag@, old(self).fallback), // [K01] [K02] [K03]

@fn Localiser::defaults
@mutself
@props K03
@spec
    requires old(self).inv(),
    ensures
        final(self).inv(), r is Ok,
        final(self).language_tag == (if language_tag is Some { language_tag->Some_0 } else { old(self).language_tag }), // [K03]
        final(self).fallback == (if fallback is Some { fallback->Some_0 } else { old(self).fallback }), // [K03]
        final(self).caching == (if caching is Some { caching->Some_0 } else { old(self).caching }), // [K03]
        final(self).language_script_data == (if language_tag is Some { script_of((*language_tag->Some_0).tag@) } else { old(self).language_script_data }), // [K03] [S02]
        final(self).localisation_provider == old(self).localisation_provider, final(self).cache == old(self).cache,

@fn Localiser::default_language
@props K03
@spec
    ensures r == self.language_tag, // [K03]

@fn Localiser::script_data
@props K03 S02
@spec
    ensures r == self.language_script_data, // [K03] [S02]

@fn Localiser::script_data_for_language_tag
@props S02
@spec
    ensures r == script_of((**tag).tag@), // [S02]

@fn Localiser::format_localisation_data
@mutself
@props K03 K04
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        data_out(old(self).localisation_provider, *data, (**language_tag).tag@, if fallback is Some { fallback->Some_0 } else { old(self).fallback }, out(r)), // [K03] [K04]

@fn Localiser::format_localisation_data_with_defaults
@mutself
@props K03 K04
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        data_out(old(self).localisation_provider, *data, (*old(self).language_tag).tag@, old(self).fallback, out(r)), // [K03] [K04]

@fn Localiser::format_error
@mutself
@props K03 K04
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        data_out(old(self).localisation_provider, error.data(), (**language_tag).tag@, if fallback is Some { fallback->Some_0 } else { old(self).fallback }, out(r)), // [K03] [K04]

@fn Localiser::format_error_with_defaults
@mutself
@props K03 K04
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        data_out(old(self).localisation_provider, error.data(), (*old(self).language_tag).tag@, old(self).fallback, out(r)), // [K03] [K04]

@fn Localiser::actual_format
@mutself
@props K01 K02
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        out(r) == format_out(old(self).localisation_provider, component@, identifier@, pvs(values@), (**language_tag).tag@, fallback), // [K01] [K02]

@fn Localiser::actual_literal
@mutself
@props K01 K02
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        out(r) == resolve(old(self).localisation_provider, component@, identifier@, (**language_tag).tag@, fallback), // [K01] [K02]

@fn Localiser::actual_format_localisation_data
@mutself
@props K04
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
        data_out(old(self).localisation_provider, *data, (**language_tag).tag@, fallback, out(r)), // [K04]
    decreases height(*data),
@entry
    proof { axiom_height(*data); }
    let ghost p0 = self.localisation_provider;
    let ghost t0 = (**language_tag).tag@;
@before 0
    proof { vp_axiom_order(&data.values->Some_0); }
@loop 0
    invariant
        self.inv(), self.same_but_cache(old(self)), p0 == old(self).localisation_provider, t0 == (**language_tag).tag@,
        data.values is Some, vp_it0.of() == data.values->Some_0, vp_it0.pos() <= vp_it0.of().order().len(),
        vp_it0.of().order().no_duplicates(), vp_it0.of().order().to_set() == vp_it0.of()@.dom(),
        forall|k: VpK| data.values is Some && (#[trigger] data.values->Some_0@.contains_key(k)) && data.values->Some_0@[k] is LocalisationData ==> height(data.values->Some_0@[k]->LocalisationData_0) < height(*data),
        forall|k: VpK| #[trigger] values_new@.contains_key(k) <==> vp_it0.of().order().take(vp_it0.pos() as int).contains(k),
        forall|k: VpK| #[trigger] values_new@.contains_key(k) ==> nested_value(p0, *data, k, pv(values_new@[k]), t0, fallback),
    ensures vp_it0.pos() == vp_it0.of().order().len(),
    decreases vp_it0.of().order().len() - vp_it0.pos(),
@head 0
    let ghost n0 = vp_it0.pos() - 1;
    proof {
        lemma_order_step(vp_it0.of().order(), n0);
        let k = vp_it0.of().order()[n0];
        assert(data.values->Some_0@.contains_key(k));
        if data.values->Some_0@[k] is LocalisationData { lemma_nested_error(p0, *data, k, t0, fallback); }
    }
@after 0
    proof {
        assert(vp_it0.of().order().take(vp_it0.pos() as int) =~= vp_it0.of().order());
        assert(values_new@.dom() =~= data.values->Some_0@.dom()) by {
            assert forall|k: VpK| values_new@.dom().contains(k) <==> data.values->Some_0@.dom().contains(k) by {
                assert(values_new@.contains_key(k) <==> vp_it0.of().order().contains(k));
                assert(vp_it0.of().order().to_set().contains(k) <==> vp_it0.of().order().contains(k));
            }
        }
        lemma_nested_values(p0, *data, values_new@, t0, fallback);
    }

@fn Localiser::add_string_to_cache
@mutself
@props K01
@spec
    requires
        old(self).inv(),
        entry_ok(old(self).localisation_provider, (**language_tag).tag@, combined.kv(), CacheData::Localised(*string, *tag)),
    ensures final(self).inv(), final(self).same_but_cache(old(self)),
