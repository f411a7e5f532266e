@unit provider
@include prov.vs
@include provider_base.vs
