@unit command
@include common.vs
@include map.vs
@include types.vs
@prelude
// ---- trusted: function pointers (opaque, copied), foreign errors -----------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CommandFn { _p: u8 }
impl CommandFn {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: CommandFn) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct DynLocalisationError { _p: u8 }
// Vec::from_iter(map.keys().map(|x| x.to_string())): every key once, in some order
#[verifier::external_body]
pub fn vp_key_strings<V>(m: &HashMap<String, V>) -> (r: Vec<String>)
    ensures
        r@.len() == m@.dom().len(),
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(VpK::S(#[trigger] r@[i]@)),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i]@ != r@[j]@,
        forall|k: VpK| m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && k == VpK::S(#[trigger] r@[i]@),
{ unimplemented!() }
// path text: PathBuf::from_str is infallible and Path::display shows UTF-8 text unchanged
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
#[verifier::external_body]
pub struct PathDisplay { _p: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct Infallible { _p: u8 }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<PathBuf, Infallible>) ensures r is Ok, r->Ok_0@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: PathDisplay) ensures r@ == self@ { unimplemented!() }
}
impl PathDisplay {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
// the cell of the registry is one cell: borrow() / borrow_mut() are the cell's content
@retype MutCell<$T> =>> $T
@retype fn(Vec<PlaceholderValue>) -> Result<String, CommandError> =>> CommandFn
@retype Box<dyn LocalisationErrorTrait> =>> DynLocalisationError
@rewrite MutCell::new($x) =>> $x
@rewrite $x.borrow() =>> (&$x)
@rewrite $x.borrow_mut() =>> (&mut $x)
@rewrite Vec::from_iter($m.keys().map(|x| x.to_string())) =>> vp_key_strings($m)
@file crates/localiser/src/error.rs
@item CommandError
@file crates/localiser/src/command.rs
@item CommandRegistry
@mid
impl CommandRegistry {
    pub open spec fn view(&self) -> Map<VpK, CommandFn> { self.registry@ }
}
pub open spec fn is_vowel(c: char) -> bool { c == 'a' || c == 'e' || c == 'i' || c == 'o' || c == 'u' }
// the error that a bundled command gives for a parameter list without command name and text parameter
pub open spec fn bad_parameters(p: Seq<PlaceholderValue>, r: Result<String, CommandError>) -> bool {
    if p.len() == 0 { r is Err && r->Err_0 is ParameterMissing && r->Err_0->ParameterMissing_1 == 0 }
    else if !(p[0] is String) { r is Err && r->Err_0 is InvalidType && r->Err_0->InvalidType_1 == 0 }
    else if p.len() == 1 { r is Err && r->Err_0 is ParameterMissing && r->Err_0->ParameterMissing_0@ == p[0]->String_0@ && r->Err_0->ParameterMissing_1 == 1 }
    else { !(p[1] is String) && r is Err && r->Err_0 is InvalidType && r->Err_0->InvalidType_0@ == p[0]->String_0@ && r->Err_0->InvalidType_1 == 1 }
}
pub open spec fn good_parameters(p: Seq<PlaceholderValue>) -> bool { p.len() >= 2 && p[0] is String && p[1] is String }

@fn CommandRegistry::new
    ensures r@ == Map::<VpK, CommandFn>::empty(), // [C01]
@fn CommandRegistry::default
    ensures r@ == Map::<VpK, CommandFn>::empty(), // [C01]

@fn CommandRegistry::insert
@mutself
@props C01
@spec
    ensures
        old(self)@.contains_key(VpK::S(command@)) ==> r is Err && r->Err_0 is AlreadyExists && r->Err_0->AlreadyExists_0@ == command@ && final(self)@ == old(self)@, // [C01]
        !old(self)@.contains_key(VpK::S(command@)) ==> r is Ok && final(self)@ == old(self)@.insert(VpK::S(command@), function), // [C01]

@fn CommandRegistry::command
@props C01
@spec
    ensures
        self@.contains_key(VpK::S(command@)) ==> r == Ok::<CommandFn, CommandError>(self@[VpK::S(command@)]), // [C01]
        !self@.contains_key(VpK::S(command@)) ==> r is Err && r->Err_0 is NotFound && r->Err_0->NotFound_0@ == command@, // [C01]

@fn CommandRegistry::list
@props C01
@spec
    ensures
        r@.len() == self@.dom().len(), // [C01]
        forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(VpK::S(#[trigger] r@[i]@)), // [C01]
        forall|k: VpK| self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && k == VpK::S(#[trigger] r@[i]@), // [C01]

@fn file_path
@props C02
@spec
    ensures
        good_parameters(parameters@) ==> r is Ok && r->Ok_0@ == parameters@[1]->String_0@, // [C02]
        !good_parameters(parameters@) ==> bad_parameters(parameters@, r), // [C02]

@fn english_a_or_an
@props C02
@spec
    ensures
        good_parameters(parameters@) ==> r is Ok && r->Ok_0@ == (if parameters@[1]->String_0@.len() > 0 && is_vowel(parameters@[1]->String_0@[0]) { "an"@ } else { "a"@ }), // [C02]
        !good_parameters(parameters@) ==> bad_parameters(parameters@, r), // [C02]

@tail
// C01 over a history: after any two registrations the first is still what it was
pub proof fn theorem_c01_registered_stays(m: Map<VpK, CommandFn>, n: Map<VpK, CommandFn>, c: Seq<char>, d: Seq<char>, f: CommandFn)
    requires m.contains_key(VpK::S(c)), n == (if m.contains_key(VpK::S(d)) { m } else { m.insert(VpK::S(d), f) }),
    ensures n.contains_key(VpK::S(c)), n[VpK::S(c)] == m[VpK::S(c)],
{}
