@unit scripts
@include common.vs
@prelude
// ---- trusted: std HashMap with texts as keys ----------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _k: Vec<K>, _v: Vec<V> }
pub trait VpKey { spec fn kv(&self) -> Seq<char>; }
impl VpKey for str { open spec fn kv(&self) -> Seq<char> { self@ } }
impl VpKey for String { open spec fn kv(&self) -> Seq<char> { self@ } }
#[verifier::opaque]
pub open spec fn put<V>(m: Map<Seq<char>, V>, k: Seq<char>, v: V) -> Map<Seq<char>, V> { m.insert(k, v) }
impl<K: VpKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VpKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k.kv()), r is Some ==> *r->Some_0 == self@[k.kv()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == put(old(self)@, k.kv(), v) { unimplemented!() }
}
// ---- trusted: ICU language identifiers, likely subtags and directions ----------------------------
// the script that a language tag names itself; the likely script of a tag that names none
pub uninterp spec fn valid_tag(t: Seq<char>) -> bool;
pub uninterp spec fn named_script(t: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn likely_script(t: Seq<char>) -> Option<Seq<char>>;
pub open spec fn script_name(t: Seq<char>) -> Option<Seq<char>> { if named_script(t) is Some { named_script(t) } else { likely_script(t) } }
#[verifier::external_body] pub struct Script { _p: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct ParserError { _p: u8 }
#[verifier::external_body] pub struct LocaleExpander { _p: u8 }
pub enum TransformResult { Modified, Unmodified }
pub struct LanguageIdentifier { pub script: Option<Script>, pub of: Ghost<Seq<char>> }
impl Clone for Script { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Script {}
impl Script {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl LanguageIdentifier {
    #[verifier::external_body]
    pub fn vp_parse(t: &str) -> (r: Result<LanguageIdentifier, ParserError>)
        ensures r is Ok == valid_tag(t@), r is Ok ==> r->Ok_0.of@ == t@ && (r->Ok_0.script is Some) == (named_script(t@) is Some)
            && (r->Ok_0.script is Some ==> r->Ok_0.script->Some_0@ == named_script(t@)->Some_0)
    { unimplemented!() }
}
impl LocaleExpander {
    #[verifier::external_body]
    pub fn new_extended() -> LocaleExpander { unimplemented!() }
    #[verifier::external_body]
    pub fn maximize(&self, id: &mut LanguageIdentifier) -> (r: TransformResult)
        ensures
            old(id).script is None && r is Modified ==> likely_script(old(id).of@) is Some && final(id).script is Some && final(id).script->Some_0@ == likely_script(old(id).of@)->Some_0,
            old(id).script is None && r is Unmodified ==> likely_script(old(id).of@) is None,
            r is Unmodified ==> *final(id) == *old(id),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_cloned(x: Option<&ScriptData>) -> (r: Option<ScriptData>) ensures r is Some == x is Some, x is Some ==> r->Some_0 == *x->Some_0 { unimplemented!() }
@rewrite LanguageIdentifier::try_from_bytes($x.as_bytes()) =>> LanguageIdentifier::vp_parse($x)
@rewrite $e.maximize($x.as_mut()) =>> $e.maximize(&mut $x)
@rewrite $x.cloned() =>> vp_cloned($x)
@file crates/utility/src/script.rs
@item ScriptDirection PartialEq Structural
@item Category
@item ScriptData
@file crates/localiser/src/script.rs
@item DataProvider
@mid
// direction of the lines of a script according to ICU (None: ICU has none)
pub uninterp spec fn icu_right_to_left(s: Seq<char>) -> Option<bool>;
#[verifier::external_body]
pub proof fn vp_axiom_icu_directions()
    ensures
        icu_right_to_left("Adlm"@) == Some(true),
        icu_right_to_left("Aghb"@) == Some(false),
        icu_right_to_left("Ahom"@) == Some(false),
        icu_right_to_left("Arab"@) == Some(true),
        icu_right_to_left("Armi"@) == Some(true),
        icu_right_to_left("Armn"@) == Some(false),
        icu_right_to_left("Avst"@) == Some(true),
        icu_right_to_left("Bali"@) == Some(false),
        icu_right_to_left("Bamu"@) == Some(false),
        icu_right_to_left("Bass"@) == Some(false),
        icu_right_to_left("Batk"@) == Some(false),
        icu_right_to_left("Beng"@) == Some(false),
        icu_right_to_left("Bhks"@) == Some(false),
        icu_right_to_left("Bopo"@) == Some(false),
        icu_right_to_left("Brah"@) == Some(false),
        icu_right_to_left("Brai"@) == None::<bool>,
        icu_right_to_left("Bugi"@) == Some(false),
        icu_right_to_left("Buhd"@) == Some(false),
        icu_right_to_left("Cakm"@) == Some(false),
        icu_right_to_left("Cans"@) == Some(false),
        icu_right_to_left("Cari"@) == Some(false),
        icu_right_to_left("Cham"@) == Some(false),
        icu_right_to_left("Cher"@) == Some(false),
        icu_right_to_left("Chrs"@) == Some(true),
        icu_right_to_left("Copt"@) == Some(false),
        icu_right_to_left("Cpmn"@) == Some(false),
        icu_right_to_left("Cprt"@) == Some(true),
        icu_right_to_left("Cyrl"@) == Some(false),
        icu_right_to_left("Cyrs"@) == None::<bool>,
        icu_right_to_left("Deva"@) == Some(false),
        icu_right_to_left("Diak"@) == Some(false),
        icu_right_to_left("Dogr"@) == Some(false),
        icu_right_to_left("Dsrt"@) == Some(false),
        icu_right_to_left("Dupl"@) == Some(false),
        icu_right_to_left("Egyp"@) == Some(false),
        icu_right_to_left("Elba"@) == Some(false),
        icu_right_to_left("Elym"@) == Some(true),
        icu_right_to_left("Ethi"@) == Some(false),
        icu_right_to_left("Gara"@) == Some(true),
        icu_right_to_left("Geok"@) == None::<bool>,
        icu_right_to_left("Geor"@) == Some(false),
        icu_right_to_left("Glag"@) == Some(false),
        icu_right_to_left("Gong"@) == Some(false),
        icu_right_to_left("Gonm"@) == Some(false),
        icu_right_to_left("Goth"@) == Some(false),
        icu_right_to_left("Gran"@) == Some(false),
        icu_right_to_left("Grek"@) == Some(false),
        icu_right_to_left("Gujr"@) == Some(false),
        icu_right_to_left("Gukn"@) == None::<bool>,
        icu_right_to_left("Guru"@) == Some(false),
        icu_right_to_left("Hanb"@) == Some(false),
        icu_right_to_left("Hang"@) == Some(false),
        icu_right_to_left("Hani"@) == Some(false),
        icu_right_to_left("Hano"@) == Some(false),
        icu_right_to_left("Hans"@) == Some(false),
        icu_right_to_left("Hant"@) == Some(false),
        icu_right_to_left("Hatr"@) == Some(true),
        icu_right_to_left("Hebr"@) == Some(true),
        icu_right_to_left("Hikt"@) == None::<bool>,
        icu_right_to_left("Hira"@) == Some(false),
        icu_right_to_left("Hluw"@) == Some(false),
        icu_right_to_left("Hmng"@) == Some(false),
        icu_right_to_left("Hmnp"@) == Some(false),
        icu_right_to_left("Hung"@) == Some(true),
        icu_right_to_left("Ital"@) == Some(false),
        icu_right_to_left("Jamo"@) == Some(false),
        icu_right_to_left("Java"@) == Some(false),
        icu_right_to_left("Jpan"@) == Some(false),
        icu_right_to_left("Kali"@) == Some(false),
        icu_right_to_left("Kana"@) == Some(false),
        icu_right_to_left("Kawi"@) == Some(false),
        icu_right_to_left("Khar"@) == Some(true),
        icu_right_to_left("Khmr"@) == Some(false),
        icu_right_to_left("Khoj"@) == Some(false),
        icu_right_to_left("Kits"@) == Some(false),
        icu_right_to_left("Knda"@) == Some(false),
        icu_right_to_left("Kore"@) == Some(false),
        icu_right_to_left("Krai"@) == Some(false),
        icu_right_to_left("Kthi"@) == Some(false),
        icu_right_to_left("Lana"@) == Some(false),
        icu_right_to_left("Laoo"@) == Some(false),
        icu_right_to_left("Latf"@) == None::<bool>,
        icu_right_to_left("Latg"@) == None::<bool>,
        icu_right_to_left("Latn"@) == Some(false),
        icu_right_to_left("Lepc"@) == Some(false),
        icu_right_to_left("Limb"@) == Some(false),
        icu_right_to_left("Lina"@) == Some(false),
        icu_right_to_left("Linb"@) == Some(false),
        icu_right_to_left("Lisu"@) == Some(false),
        icu_right_to_left("Lyci"@) == Some(false),
        icu_right_to_left("Lydi"@) == Some(true),
        icu_right_to_left("Mahj"@) == Some(false),
        icu_right_to_left("Maka"@) == Some(false),
        icu_right_to_left("Mand"@) == Some(true),
        icu_right_to_left("Mani"@) == Some(true),
        icu_right_to_left("Marc"@) == Some(false),
        icu_right_to_left("Medf"@) == Some(false),
        icu_right_to_left("Mend"@) == Some(true),
        icu_right_to_left("Merc"@) == Some(true),
        icu_right_to_left("Mero"@) == Some(true),
        icu_right_to_left("Mlym"@) == Some(false),
        icu_right_to_left("Modi"@) == Some(false),
        icu_right_to_left("Mong"@) == Some(false),
        icu_right_to_left("Mroo"@) == Some(false),
        icu_right_to_left("Mtei"@) == Some(false),
        icu_right_to_left("Mult"@) == Some(false),
        icu_right_to_left("Mymr"@) == Some(false),
        icu_right_to_left("Nagm"@) == Some(false),
        icu_right_to_left("Nand"@) == Some(false),
        icu_right_to_left("Narb"@) == Some(true),
        icu_right_to_left("Nbat"@) == Some(true),
        icu_right_to_left("Newa"@) == Some(false),
        icu_right_to_left("Nkoo"@) == Some(true),
        icu_right_to_left("Nshu"@) == Some(false),
        icu_right_to_left("Ogam"@) == Some(false),
        icu_right_to_left("Olck"@) == Some(false),
        icu_right_to_left("Onao"@) == Some(false),
        icu_right_to_left("Orkh"@) == Some(true),
        icu_right_to_left("Orya"@) == Some(false),
        icu_right_to_left("Osge"@) == Some(false),
        icu_right_to_left("Osma"@) == Some(false),
        icu_right_to_left("Ougr"@) == Some(true),
        icu_right_to_left("Palm"@) == Some(true),
        icu_right_to_left("Pauc"@) == Some(false),
        icu_right_to_left("Perm"@) == Some(false),
        icu_right_to_left("Phag"@) == Some(false),
        icu_right_to_left("Phli"@) == Some(true),
        icu_right_to_left("Phlp"@) == Some(true),
        icu_right_to_left("Phlv"@) == None::<bool>,
        icu_right_to_left("Phnx"@) == Some(true),
        icu_right_to_left("Plrd"@) == Some(false),
        icu_right_to_left("Prti"@) == Some(true),
        icu_right_to_left("Rjng"@) == Some(false),
        icu_right_to_left("Rohg"@) == Some(true),
        icu_right_to_left("Runr"@) == Some(false),
        icu_right_to_left("Samr"@) == Some(true),
        icu_right_to_left("Sarb"@) == Some(true),
        icu_right_to_left("Saur"@) == Some(false),
        icu_right_to_left("Sgnw"@) == Some(false),
        icu_right_to_left("Shaw"@) == Some(false),
        icu_right_to_left("Shrd"@) == Some(false),
        icu_right_to_left("Sidd"@) == Some(false),
        icu_right_to_left("Sind"@) == Some(false),
        icu_right_to_left("Sinh"@) == Some(false),
        icu_right_to_left("Sogd"@) == Some(true),
        icu_right_to_left("Sogo"@) == Some(true),
        icu_right_to_left("Sora"@) == Some(false),
        icu_right_to_left("Soyo"@) == Some(false),
        icu_right_to_left("Sund"@) == Some(false),
        icu_right_to_left("Sunu"@) == Some(false),
        icu_right_to_left("Sylo"@) == Some(false),
        icu_right_to_left("Syrc"@) == Some(true),
        icu_right_to_left("Syre"@) == None::<bool>,
        icu_right_to_left("Syrj"@) == None::<bool>,
        icu_right_to_left("Syrn"@) == None::<bool>,
        icu_right_to_left("Tagb"@) == Some(false),
        icu_right_to_left("Takr"@) == Some(false),
        icu_right_to_left("Tale"@) == Some(false),
        icu_right_to_left("Talu"@) == Some(false),
        icu_right_to_left("Taml"@) == Some(false),
        icu_right_to_left("Tang"@) == Some(false),
        icu_right_to_left("Tavt"@) == Some(false),
        icu_right_to_left("Tayo"@) == None::<bool>,
        icu_right_to_left("Telu"@) == Some(false),
        icu_right_to_left("Tfng"@) == Some(false),
        icu_right_to_left("Tglg"@) == Some(false),
        icu_right_to_left("Thaa"@) == Some(true),
        icu_right_to_left("Thai"@) == Some(false),
        icu_right_to_left("Tibt"@) == Some(false),
        icu_right_to_left("Tirh"@) == Some(false),
        icu_right_to_left("Tnsa"@) == Some(false),
        icu_right_to_left("Todr"@) == Some(false),
        icu_right_to_left("Toto"@) == Some(false),
        icu_right_to_left("Tutg"@) == Some(false),
        icu_right_to_left("Ugar"@) == Some(false),
        icu_right_to_left("Vaii"@) == Some(false),
        icu_right_to_left("Vith"@) == Some(false),
        icu_right_to_left("Wara"@) == Some(false),
        icu_right_to_left("Wcho"@) == Some(false),
        icu_right_to_left("Xpeo"@) == Some(false),
        icu_right_to_left("Xsux"@) == Some(false),
        icu_right_to_left("Yezi"@) == Some(true),
        icu_right_to_left("Yiii"@) == Some(false),
        icu_right_to_left("Zand"@) == None::<bool>,
{}
// the likely scripts of all languages of ICU
pub open spec fn known(s: Seq<char>) -> bool {
    ||| s == "Aghb"@
    ||| s == "Ahom"@
    ||| s == "Arab"@
    ||| s == "Armi"@
    ||| s == "Armn"@
    ||| s == "Avst"@
    ||| s == "Bamu"@
    ||| s == "Bass"@
    ||| s == "Batk"@
    ||| s == "Beng"@
    ||| s == "Bopo"@
    ||| s == "Brah"@
    ||| s == "Cakm"@
    ||| s == "Cans"@
    ||| s == "Cari"@
    ||| s == "Cham"@
    ||| s == "Cher"@
    ||| s == "Chrs"@
    ||| s == "Copt"@
    ||| s == "Cprt"@
    ||| s == "Cyrl"@
    ||| s == "Deva"@
    ||| s == "Egyp"@
    ||| s == "Elym"@
    ||| s == "Ethi"@
    ||| s == "Geor"@
    ||| s == "Gong"@
    ||| s == "Gonm"@
    ||| s == "Goth"@
    ||| s == "Gran"@
    ||| s == "Grek"@
    ||| s == "Gujr"@
    ||| s == "Guru"@
    ||| s == "Hang"@
    ||| s == "Hani"@
    ||| s == "Hans"@
    ||| s == "Hant"@
    ||| s == "Hebr"@
    ||| s == "Hluw"@
    ||| s == "Hmnp"@
    ||| s == "Ital"@
    ||| s == "Java"@
    ||| s == "Jpan"@
    ||| s == "Kali"@
    ||| s == "Kana"@
    ||| s == "Kawi"@
    ||| s == "Khar"@
    ||| s == "Khmr"@
    ||| s == "Kits"@
    ||| s == "Knda"@
    ||| s == "Kore"@
    ||| s == "Lana"@
    ||| s == "Laoo"@
    ||| s == "Latf"@
    ||| s == "Latg"@
    ||| s == "Latn"@
    ||| s == "Lepc"@
    ||| s == "Lina"@
    ||| s == "Linb"@
    ||| s == "Lisu"@
    ||| s == "Lyci"@
    ||| s == "Lydi"@
    ||| s == "Mand"@
    ||| s == "Mani"@
    ||| s == "Marc"@
    ||| s == "Medf"@
    ||| s == "Merc"@
    ||| s == "Mlym"@
    ||| s == "Modi"@
    ||| s == "Mong"@
    ||| s == "Mroo"@
    ||| s == "Mtei"@
    ||| s == "Mymr"@
    ||| s == "Narb"@
    ||| s == "Newa"@
    ||| s == "Nkoo"@
    ||| s == "Nshu"@
    ||| s == "Ogam"@
    ||| s == "Olck"@
    ||| s == "Orkh"@
    ||| s == "Orya"@
    ||| s == "Osge"@
    ||| s == "Ougr"@
    ||| s == "Pauc"@
    ||| s == "Phli"@
    ||| s == "Phnx"@
    ||| s == "Plrd"@
    ||| s == "Prti"@
    ||| s == "Rjng"@
    ||| s == "Rohg"@
    ||| s == "Runr"@
    ||| s == "Samr"@
    ||| s == "Sarb"@
    ||| s == "Saur"@
    ||| s == "Sgnw"@
    ||| s == "Sinh"@
    ||| s == "Sogd"@
    ||| s == "Sora"@
    ||| s == "Soyo"@
    ||| s == "Sunu"@
    ||| s == "Syrc"@
    ||| s == "Tagb"@
    ||| s == "Takr"@
    ||| s == "Tale"@
    ||| s == "Talu"@
    ||| s == "Taml"@
    ||| s == "Tang"@
    ||| s == "Tavt"@
    ||| s == "Telu"@
    ||| s == "Tfng"@
    ||| s == "Thaa"@
    ||| s == "Thai"@
    ||| s == "Tibt"@
    ||| s == "Tnsa"@
    ||| s == "Toto"@
    ||| s == "Ugar"@
    ||| s == "Vaii"@
    ||| s == "Wcho"@
    ||| s == "Xpeo"@
    ||| s == "Xsux"@
    ||| s == "Yiii"@
}
#[verifier::external_body]
pub proof fn vp_axiom_likely(t: Seq<char>)
    ensures likely_script(t) is Some ==> known(likely_script(t)->Some_0),
{}
pub open spec fn listed(v: ScriptData, d: ScriptDirection) -> bool {
    (v.directions@.len() > 0 && v.directions@[0] == d) || (v.directions@.len() > 1 && v.directions@[1] == d) || (v.directions@.len() > 2 && v.directions@[2] == d) || (v.directions@.len() > 3 && v.directions@[3] == d) || (v.directions@.len() > 4 && v.directions@[4] == d) || (v.directions@.len() > 5 && v.directions@[5] == d) || (v.directions@.len() > 6 && v.directions@[6] == d) || (v.directions@.len() > 7 && v.directions@[7] == d)
}
// the first direction is a direction of the script, horizontal lines run in the direction of ICU
pub open spec fn agrees(k: Seq<char>, v: ScriptData) -> bool {
    &&& 0 < v.directions@.len() <= 8
    &&& icu_right_to_left(k) == Some(true) ==> listed(v, ScriptDirection::TopToBottomRightToLeft)
    &&& icu_right_to_left(k) == Some(false) ==> listed(v, ScriptDirection::TopToBottomLeftToRight) || !listed(v, ScriptDirection::TopToBottomRightToLeft)
}
#[verifier::opaque]
pub open spec fn tabled(m: Map<Seq<char>, ScriptData>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> agrees(k, m[k]) }
pub open spec fn keeps(a: Map<Seq<char>, ScriptData>, b: Map<Seq<char>, ScriptData>) -> bool {
    &&& a.contains_key("Aghb"@) ==> b.contains_key("Aghb"@)
    &&& a.contains_key("Ahom"@) ==> b.contains_key("Ahom"@)
    &&& a.contains_key("Arab"@) ==> b.contains_key("Arab"@)
    &&& a.contains_key("Armi"@) ==> b.contains_key("Armi"@)
    &&& a.contains_key("Armn"@) ==> b.contains_key("Armn"@)
    &&& a.contains_key("Avst"@) ==> b.contains_key("Avst"@)
    &&& a.contains_key("Bamu"@) ==> b.contains_key("Bamu"@)
    &&& a.contains_key("Bass"@) ==> b.contains_key("Bass"@)
    &&& a.contains_key("Batk"@) ==> b.contains_key("Batk"@)
    &&& a.contains_key("Beng"@) ==> b.contains_key("Beng"@)
    &&& a.contains_key("Bopo"@) ==> b.contains_key("Bopo"@)
    &&& a.contains_key("Brah"@) ==> b.contains_key("Brah"@)
    &&& a.contains_key("Cakm"@) ==> b.contains_key("Cakm"@)
    &&& a.contains_key("Cans"@) ==> b.contains_key("Cans"@)
    &&& a.contains_key("Cari"@) ==> b.contains_key("Cari"@)
    &&& a.contains_key("Cham"@) ==> b.contains_key("Cham"@)
    &&& a.contains_key("Cher"@) ==> b.contains_key("Cher"@)
    &&& a.contains_key("Chrs"@) ==> b.contains_key("Chrs"@)
    &&& a.contains_key("Copt"@) ==> b.contains_key("Copt"@)
    &&& a.contains_key("Cprt"@) ==> b.contains_key("Cprt"@)
    &&& a.contains_key("Cyrl"@) ==> b.contains_key("Cyrl"@)
    &&& a.contains_key("Deva"@) ==> b.contains_key("Deva"@)
    &&& a.contains_key("Egyp"@) ==> b.contains_key("Egyp"@)
    &&& a.contains_key("Elym"@) ==> b.contains_key("Elym"@)
    &&& a.contains_key("Ethi"@) ==> b.contains_key("Ethi"@)
    &&& a.contains_key("Geor"@) ==> b.contains_key("Geor"@)
    &&& a.contains_key("Gong"@) ==> b.contains_key("Gong"@)
    &&& a.contains_key("Gonm"@) ==> b.contains_key("Gonm"@)
    &&& a.contains_key("Goth"@) ==> b.contains_key("Goth"@)
    &&& a.contains_key("Gran"@) ==> b.contains_key("Gran"@)
    &&& a.contains_key("Grek"@) ==> b.contains_key("Grek"@)
    &&& a.contains_key("Gujr"@) ==> b.contains_key("Gujr"@)
    &&& a.contains_key("Guru"@) ==> b.contains_key("Guru"@)
    &&& a.contains_key("Hang"@) ==> b.contains_key("Hang"@)
    &&& a.contains_key("Hani"@) ==> b.contains_key("Hani"@)
    &&& a.contains_key("Hans"@) ==> b.contains_key("Hans"@)
    &&& a.contains_key("Hant"@) ==> b.contains_key("Hant"@)
    &&& a.contains_key("Hebr"@) ==> b.contains_key("Hebr"@)
    &&& a.contains_key("Hluw"@) ==> b.contains_key("Hluw"@)
    &&& a.contains_key("Hmnp"@) ==> b.contains_key("Hmnp"@)
    &&& a.contains_key("Ital"@) ==> b.contains_key("Ital"@)
    &&& a.contains_key("Java"@) ==> b.contains_key("Java"@)
    &&& a.contains_key("Jpan"@) ==> b.contains_key("Jpan"@)
    &&& a.contains_key("Kali"@) ==> b.contains_key("Kali"@)
    &&& a.contains_key("Kana"@) ==> b.contains_key("Kana"@)
    &&& a.contains_key("Kawi"@) ==> b.contains_key("Kawi"@)
    &&& a.contains_key("Khar"@) ==> b.contains_key("Khar"@)
    &&& a.contains_key("Khmr"@) ==> b.contains_key("Khmr"@)
    &&& a.contains_key("Kits"@) ==> b.contains_key("Kits"@)
    &&& a.contains_key("Knda"@) ==> b.contains_key("Knda"@)
    &&& a.contains_key("Kore"@) ==> b.contains_key("Kore"@)
    &&& a.contains_key("Lana"@) ==> b.contains_key("Lana"@)
    &&& a.contains_key("Laoo"@) ==> b.contains_key("Laoo"@)
    &&& a.contains_key("Latf"@) ==> b.contains_key("Latf"@)
    &&& a.contains_key("Latg"@) ==> b.contains_key("Latg"@)
    &&& a.contains_key("Latn"@) ==> b.contains_key("Latn"@)
    &&& a.contains_key("Lepc"@) ==> b.contains_key("Lepc"@)
    &&& a.contains_key("Lina"@) ==> b.contains_key("Lina"@)
    &&& a.contains_key("Linb"@) ==> b.contains_key("Linb"@)
    &&& a.contains_key("Lisu"@) ==> b.contains_key("Lisu"@)
    &&& a.contains_key("Lyci"@) ==> b.contains_key("Lyci"@)
    &&& a.contains_key("Lydi"@) ==> b.contains_key("Lydi"@)
    &&& a.contains_key("Mand"@) ==> b.contains_key("Mand"@)
    &&& a.contains_key("Mani"@) ==> b.contains_key("Mani"@)
    &&& a.contains_key("Marc"@) ==> b.contains_key("Marc"@)
    &&& a.contains_key("Medf"@) ==> b.contains_key("Medf"@)
    &&& a.contains_key("Merc"@) ==> b.contains_key("Merc"@)
    &&& a.contains_key("Mlym"@) ==> b.contains_key("Mlym"@)
    &&& a.contains_key("Modi"@) ==> b.contains_key("Modi"@)
    &&& a.contains_key("Mong"@) ==> b.contains_key("Mong"@)
    &&& a.contains_key("Mroo"@) ==> b.contains_key("Mroo"@)
    &&& a.contains_key("Mtei"@) ==> b.contains_key("Mtei"@)
    &&& a.contains_key("Mymr"@) ==> b.contains_key("Mymr"@)
    &&& a.contains_key("Narb"@) ==> b.contains_key("Narb"@)
    &&& a.contains_key("Newa"@) ==> b.contains_key("Newa"@)
    &&& a.contains_key("Nkoo"@) ==> b.contains_key("Nkoo"@)
    &&& a.contains_key("Nshu"@) ==> b.contains_key("Nshu"@)
    &&& a.contains_key("Ogam"@) ==> b.contains_key("Ogam"@)
    &&& a.contains_key("Olck"@) ==> b.contains_key("Olck"@)
    &&& a.contains_key("Orkh"@) ==> b.contains_key("Orkh"@)
    &&& a.contains_key("Orya"@) ==> b.contains_key("Orya"@)
    &&& a.contains_key("Osge"@) ==> b.contains_key("Osge"@)
    &&& a.contains_key("Ougr"@) ==> b.contains_key("Ougr"@)
    &&& a.contains_key("Pauc"@) ==> b.contains_key("Pauc"@)
    &&& a.contains_key("Phli"@) ==> b.contains_key("Phli"@)
    &&& a.contains_key("Phnx"@) ==> b.contains_key("Phnx"@)
    &&& a.contains_key("Plrd"@) ==> b.contains_key("Plrd"@)
    &&& a.contains_key("Prti"@) ==> b.contains_key("Prti"@)
    &&& a.contains_key("Rjng"@) ==> b.contains_key("Rjng"@)
    &&& a.contains_key("Rohg"@) ==> b.contains_key("Rohg"@)
    &&& a.contains_key("Runr"@) ==> b.contains_key("Runr"@)
    &&& a.contains_key("Samr"@) ==> b.contains_key("Samr"@)
    &&& a.contains_key("Sarb"@) ==> b.contains_key("Sarb"@)
    &&& a.contains_key("Saur"@) ==> b.contains_key("Saur"@)
    &&& a.contains_key("Sgnw"@) ==> b.contains_key("Sgnw"@)
    &&& a.contains_key("Sinh"@) ==> b.contains_key("Sinh"@)
    &&& a.contains_key("Sogd"@) ==> b.contains_key("Sogd"@)
    &&& a.contains_key("Sora"@) ==> b.contains_key("Sora"@)
    &&& a.contains_key("Soyo"@) ==> b.contains_key("Soyo"@)
    &&& a.contains_key("Sunu"@) ==> b.contains_key("Sunu"@)
    &&& a.contains_key("Syrc"@) ==> b.contains_key("Syrc"@)
    &&& a.contains_key("Tagb"@) ==> b.contains_key("Tagb"@)
    &&& a.contains_key("Takr"@) ==> b.contains_key("Takr"@)
    &&& a.contains_key("Tale"@) ==> b.contains_key("Tale"@)
    &&& a.contains_key("Talu"@) ==> b.contains_key("Talu"@)
    &&& a.contains_key("Taml"@) ==> b.contains_key("Taml"@)
    &&& a.contains_key("Tang"@) ==> b.contains_key("Tang"@)
    &&& a.contains_key("Tavt"@) ==> b.contains_key("Tavt"@)
    &&& a.contains_key("Telu"@) ==> b.contains_key("Telu"@)
    &&& a.contains_key("Tfng"@) ==> b.contains_key("Tfng"@)
    &&& a.contains_key("Thaa"@) ==> b.contains_key("Thaa"@)
    &&& a.contains_key("Thai"@) ==> b.contains_key("Thai"@)
    &&& a.contains_key("Tibt"@) ==> b.contains_key("Tibt"@)
    &&& a.contains_key("Tnsa"@) ==> b.contains_key("Tnsa"@)
    &&& a.contains_key("Toto"@) ==> b.contains_key("Toto"@)
    &&& a.contains_key("Ugar"@) ==> b.contains_key("Ugar"@)
    &&& a.contains_key("Vaii"@) ==> b.contains_key("Vaii"@)
    &&& a.contains_key("Wcho"@) ==> b.contains_key("Wcho"@)
    &&& a.contains_key("Xpeo"@) ==> b.contains_key("Xpeo"@)
    &&& a.contains_key("Xsux"@) ==> b.contains_key("Xsux"@)
    &&& a.contains_key("Yiii"@) ==> b.contains_key("Yiii"@)
}
pub broadcast proof fn lemma_insert(m: Map<Seq<char>, ScriptData>, k: Seq<char>, v: ScriptData)
    requires tabled(m), agrees(k, v),
    ensures #[trigger] tabled(put(m, k, v)),
{ reveal(put); reveal(tabled); }
pub broadcast proof fn lemma_keys(m: Map<Seq<char>, ScriptData>, k: Seq<char>, v: ScriptData, x: Seq<char>)
    ensures #[trigger] put(m, k, v).contains_key(x) <==> x == k || m.contains_key(x),
{ reveal(put); }
pub open spec fn look_up(m: Map<Seq<char>, ScriptData>, n: Option<Seq<char>>) -> Option<ScriptData> {
    if n is Some && m.contains_key(n->Some_0) { Some(m[n->Some_0]) } else { None }
}
pub proof fn lemma_empty()
    ensures tabled(Map::<Seq<char>, ScriptData>::empty()),
{ reveal(tabled); }
// one entry, with what it means for the table (proved: the chain of entries is too long for the solver otherwise)
pub fn vp_put(m: &mut HashMap<String, ScriptData>, k: String, v: ScriptData) -> (r: Option<ScriptData>)
    ensures
        final(m)@ == put(old(m)@, k@, v),
        tabled(old(m)@) && agrees(k@, v) ==> tabled(final(m)@),
        final(m)@.contains_key(k@), keeps(old(m)@, final(m)@),
{
    broadcast use {lemma_insert, lemma_keys};
    m.insert(k, v)
}
pub fn vp_vec1(a: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 1, r@[0] == a { let mut v = Vec::new(); v.push(a); v }
pub fn vp_vec2(a: ScriptDirection, b: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 2, r@[0] == a, r@[1] == b { let mut v = Vec::new(); v.push(a); v.push(b); v }
pub fn vp_vec3(a: ScriptDirection, b: ScriptDirection, c: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 3, r@[0] == a, r@[1] == b, r@[2] == c { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v }
pub fn vp_vec4(a: ScriptDirection, b: ScriptDirection, c: ScriptDirection, d: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 4, r@[0] == a, r@[1] == b, r@[2] == c, r@[3] == d { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v }
pub fn vp_vec5(a: ScriptDirection, b: ScriptDirection, c: ScriptDirection, d: ScriptDirection, e: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 5, r@[0] == a, r@[1] == b, r@[2] == c, r@[3] == d, r@[4] == e { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v.push(e); v }
pub fn vp_vec6(a: ScriptDirection, b: ScriptDirection, c: ScriptDirection, d: ScriptDirection, e: ScriptDirection, f: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 6, r@[0] == a, r@[1] == b, r@[2] == c, r@[3] == d, r@[4] == e, r@[5] == f { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v.push(e); v.push(f); v }
pub fn vp_vec7(a: ScriptDirection, b: ScriptDirection, c: ScriptDirection, d: ScriptDirection, e: ScriptDirection, f: ScriptDirection, g: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 7, r@[0] == a, r@[1] == b, r@[2] == c, r@[3] == d, r@[4] == e, r@[5] == f, r@[6] == g { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v.push(e); v.push(f); v.push(g); v }
pub fn vp_vec8(a: ScriptDirection, b: ScriptDirection, c: ScriptDirection, d: ScriptDirection, e: ScriptDirection, f: ScriptDirection, g: ScriptDirection, h: ScriptDirection) -> (r: Vec<ScriptDirection>) ensures r@.len() == 8, r@[0] == a, r@[1] == b, r@[2] == c, r@[3] == d, r@[4] == e, r@[5] == f, r@[6] == g, r@[7] == h { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v.push(e); v.push(f); v.push(g); v.push(h); v }
@rewrite vec![$a] =>> vp_vec1($a)
@rewrite vec![$a,] =>> vp_vec1($a)
@rewrite vec![$a, $b] =>> vp_vec2($a, $b)
@rewrite vec![$a, $b,] =>> vp_vec2($a, $b)
@rewrite vec![$a, $b, $c] =>> vp_vec3($a, $b, $c)
@rewrite vec![$a, $b, $c,] =>> vp_vec3($a, $b, $c)
@rewrite vec![$a, $b, $c, $d] =>> vp_vec4($a, $b, $c, $d)
@rewrite vec![$a, $b, $c, $d,] =>> vp_vec4($a, $b, $c, $d)
@rewrite vec![$a, $b, $c, $d, $e] =>> vp_vec5($a, $b, $c, $d, $e)
@rewrite vec![$a, $b, $c, $d, $e,] =>> vp_vec5($a, $b, $c, $d, $e)
@rewrite vec![$a, $b, $c, $d, $e, $f] =>> vp_vec6($a, $b, $c, $d, $e, $f)
@rewrite vec![$a, $b, $c, $d, $e, $f,] =>> vp_vec6($a, $b, $c, $d, $e, $f)
@rewrite vec![$a, $b, $c, $d, $e, $f, $g] =>> vp_vec7($a, $b, $c, $d, $e, $f, $g)
@rewrite vec![$a, $b, $c, $d, $e, $f, $g,] =>> vp_vec7($a, $b, $c, $d, $e, $f, $g)
@rewrite vec![$a, $b, $c, $d, $e, $f, $g, $h] =>> vp_vec8($a, $b, $c, $d, $e, $f, $g, $h)
@rewrite vec![$a, $b, $c, $d, $e, $f, $g, $h,] =>> vp_vec8($a, $b, $c, $d, $e, $f, $g, $h)
@rewrite $d.insert($k, $v) =>> vp_put(&mut $d, $k, $v)
@fn DataProvider::new
@ret r
@spec
    ensures
        tabled(r.data@), // [S02]
        forall|s: Seq<char>| #[trigger] known(s) ==> r.data@.contains_key(s), // [S02]
@entry
proof { vp_axiom_icu_directions(); lemma_empty(); }
@fn DataProvider::get
@ret r
@spec
    ensures
        r is Some == self.data@.contains_key(script@), // [S02]
        r is Some ==> *r->Some_0 == self.data@[script@], // [S02]
@file crates/localiser/src/localiser.rs
@fn get_script_data
@ret r
@spec
    requires valid_tag(tag@),
    ensures r == look_up(script_data.data@, script_name(tag@)), // [S02]
@tail
// the script data of a language: there is some whenever ICU knows a likely script, and it agrees
pub fn theorem_s02_script_data(tag: &str)
    requires valid_tag(tag@),
{
    let d = DataProvider::new();
    let e = LocaleExpander::new_extended();
    let r = get_script_data(tag, &d, &e);
    proof { vp_axiom_likely(tag@); reveal(tabled); }
    assert(named_script(tag@) is None && likely_script(tag@) is Some ==> r is Some);
    assert(script_name(tag@) is None ==> r is None);
    assert(r is Some ==> agrees(script_name(tag@)->Some_0, r->Some_0));
}
