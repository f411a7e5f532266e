@unit access
@include common.vs
@include map.vs
@include types.vs
@retype MutCell<$T> =>> $T
@rewrite MutCell::new($x) =>> $x
@include localiser_base.vs
@mid
impl Localiser { pub open spec fn cached(&self) -> Map<VpK, HashMap<CacheKey, CacheData>> { self.cache@ } }

@fn Localiser::try_new
@props T02 C03
@spec
    ensures
        r is Ok ==> r->Ok_0.grammar@ == "{}`#"@, // [?] [T02] [T03]
        r is Ok ==> r->Ok_0.command_registry == *command_registry, // [C03]
        r is Ok ==> r->Ok_0.language_registry == *language_tag_registry && r->Ok_0.icu_data_provider == *icu_data_provider && r->Ok_0.localisation_provider == localisation_provider, // [F02]
@fn Localiser::localisation_provider
@spec
    ensures *r == self.localisation_provider, // [F02]
@fn Localiser::language_tag_registry
@spec
    ensures *r == self.language_registry, // [F02]
@fn Localiser::command_registry
@spec
    ensures *r == self.command_registry, // [C03]
@fn Localiser::icu_data_provider
@spec
    ensures *r == self.icu_data_provider, // [F02] [T02]
@fn Localiser::grammar
@spec
    ensures r@ == self.grammar@, // [T02] [T03]
