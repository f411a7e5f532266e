@unit sync_command
@features sync
@include common.vs
@include map.vs
@include types.vs
@include sync_cell.vs
@prelude
// ---- trusted: function pointers (opaque, copied), foreign errors -----------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CommandFn { _p: u8 }
impl CommandFn {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: CommandFn) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct DynLocalisationError { _p: u8 }
// Vec::from_iter(map.keys().map(|x| x.to_string())): every key once, in some order
#[verifier::external_body]
pub fn vp_key_strings<V>(m: &HashMap<String, V>) -> (r: Vec<String>)
    ensures
        r@.len() == m@.dom().len(),
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(VpK::S(#[trigger] r@[i]@)),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i]@ != r@[j]@,
        forall|k: VpK| m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && k == VpK::S(#[trigger] r@[i]@),
{ unimplemented!() }
// any function may be registered, and stays
impl VpShared for CommandFn {
    open spec fn fits(k: VpK, v: CommandFn) -> bool { true }
    open spec fn stays(a: CommandFn, b: CommandFn) -> bool { a == b }
}
@retype MutCell<HashMap<$K, $V>> =>> SharedMap<$K, $V>
@retype fn(Vec<PlaceholderValue>) -> Result<String, CommandError> =>> CommandFn
@retype Box<dyn LocalisationErrorTrait> =>> DynLocalisationError
@rewrite MutCell::new($x) =>> SharedMap::new($x)
@rewrite $x.lock().unwrap() =>> $x.lock()
@rewrite Vec::from_iter($m.keys().map(|x| x.to_string())) =>> vp_key_strings($m)
@file crates/localiser/src/error.rs
@item CommandError
@file crates/localiser/src/command.rs
@item CommandRegistry
@mid
impl CommandRegistry {
    // what this thread knows of the registry, and what it was when this thread last locked it
    pub open spec fn view(&self) -> Map<VpK, CommandFn> { self.registry.v@ }
    pub open spec fn at(&self) -> Map<VpK, CommandFn> { self.registry.seen@ }
}
// one operation on the registry, in the state that it found (every call is one such operation)
pub open spec fn inserted(s: Map<VpK, CommandFn>, t: Map<VpK, CommandFn>, c: Seq<char>, f: CommandFn, ok: bool) -> bool {
    if s.contains_key(VpK::S(c)) { !ok && t == s } else { ok && t == s.insert(VpK::S(c), f) }
}

@fn CommandRegistry::new
    ensures r@ == Map::<VpK, CommandFn>::empty(), r.registry.kept(), // [Y02]
@fn CommandRegistry::default
    ensures r@ == Map::<VpK, CommandFn>::empty(), r.registry.kept(), // [Y02]

@fn CommandRegistry::insert
@mutself
@props Y02
@spec
    requires old(self).registry.kept(),
    ensures
        final(self).registry.kept(), // [Y02]
        grew(old(self)@, final(self).at()), // [Y02]
        inserted(final(self).at(), final(self)@, command@, function, r is Ok), // [Y02]
        r is Err ==> r->Err_0 is AlreadyExists && r->Err_0->AlreadyExists_0@ == command@, // [Y02]

@fn CommandRegistry::command
@mutself
@props Y02
@spec
    requires old(self).registry.kept(),
    ensures
        final(self).registry.kept(), grew(old(self)@, final(self).at()), final(self)@ == final(self).at(), // [Y02]
        final(self)@.contains_key(VpK::S(command@)) ==> r == Ok::<CommandFn, CommandError>(final(self)@[VpK::S(command@)]), // [Y02]
        !final(self)@.contains_key(VpK::S(command@)) ==> r is Err && r->Err_0 is NotFound && r->Err_0->NotFound_0@ == command@, // [Y02]

@fn CommandRegistry::list
@mutself
@props Y02
@spec
    requires old(self).registry.kept(),
    ensures
        final(self).registry.kept(), grew(old(self)@, final(self).at()), final(self)@ == final(self).at(), // [Y02]
        r@.len() == final(self)@.dom().len(), // [Y02]
        forall|i: int| 0 <= i < r@.len() ==> final(self)@.contains_key(VpK::S(#[trigger] r@[i]@)), // [Y02]
        forall|k: VpK| final(self)@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && k == VpK::S(#[trigger] r@[i]@), // [Y02]

@tail
// of two registrations of one command, in whatever states they find, at most one succeeds, and its function stays
pub proof fn theorem_y02_one_registration(s: Map<VpK, CommandFn>, t: Map<VpK, CommandFn>, s2: Map<VpK, CommandFn>, t2: Map<VpK, CommandFn>, c: Seq<char>, f: CommandFn, g: CommandFn, ok: bool, ok2: bool)
    requires inserted(s, t, c, f, ok), grew(t, s2), inserted(s2, t2, c, g, ok2),
    ensures !ok2, ok ==> t2[VpK::S(c)] == f,
{
    assert(t.contains_key(VpK::S(c)));
    assert(s2.contains_key(VpK::S(c)));
}
// a command that this thread has registered is found, whatever the other threads register
pub fn theorem_y02_registered_is_found(g: &mut CommandRegistry, c: &str, d: &str, f: CommandFn, h: CommandFn)
    requires old(g).registry.kept(),
{
    let a = g.insert(c, f);
    assert(g@.contains_key(VpK::S(c@)));
    let _ = g.insert(d, h);
    assert(g.at().contains_key(VpK::S(c@)));
    assert(g@.contains_key(VpK::S(c@)));
    let b = g.command(c);
    assert(b is Ok && (a is Ok ==> b->Ok_0 == f));
}
