@unit sync_provider
@features sync
@include sync_prov.vs
@include provider_base.vs
