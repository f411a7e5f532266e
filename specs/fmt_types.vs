@prelude
// ---- trusted: foreign error types, opaque ----------------------------------------------------
#[verifier::external_body] pub struct LocaliserError { _p: u8 }
#[verifier::external_body] pub struct IcuParserError { _p: u8 }
#[verifier::external_body] pub struct ParseIntError { _p: u8 }
#[verifier::external_body] pub struct DecimalError { _p: u8 }
#[verifier::external_body] pub struct DateTimeError { _p: u8 }
#[verifier::external_body] pub struct PluralError { _p: u8 }
#[verifier::external_body] pub struct FixedDecimalError { _p: u8 }
#[verifier::external_body] pub struct CommandError { _p: u8 }
#[verifier::external_body] pub struct LexerError { _p: u8 }
pub enum CalendarError { OutOfRange, Other(u8) }
// ---- trusted: ICU option types ---------------------------------------------------------------
#[derive(Clone, Copy)] pub enum SignDisplay { Auto, Never, Always, ExceptZero, Negative }
#[derive(Clone, Copy)] pub enum GroupingStrategy { Auto, Never, Always, Min2 }
#[derive(Clone, Copy)] pub enum DateLength { Full, Long, Medium, Short }
#[derive(Clone, Copy)] pub enum TimeLength { Full, Long, Medium, Short }
pub enum PluralCategory { Zero, One, Two, Few, Many, Other }
#[verifier::external_body] pub struct IcuLanguage { _p: u8 }
@retype options::GroupingStrategy =>> GroupingStrategy
@retype options::FixedDecimalFormatterOptions =>> FixedDecimalFormatterOptions
@retype icu_datetime::options::length::Date =>> DateLength
@retype icu_datetime::options::length::Time =>> TimeLength
@file crates/localiser/src/tree.rs
@item NodeType PartialEq Eq Structural
@item ParserState
@file crates/localiser/src/error.rs
@item TreeError
@item FormatterError
@file crates/localiser/src/formatter.rs
@item PatternPart
@item ComplexType
@item Formatter
@mid
// ---- errors by value -------------------------------------------------------------------------
pub enum EV {
    Named(Seq<char>), Part(Seq<char>, int), OptionValue(Seq<char>, Seq<char>, Seq<char>), Keyword(Seq<char>, Seq<char>),
    SelNamed(Seq<char>, Seq<char>, Seq<char>), SelOther(Seq<char>, Seq<char>), Opt(Seq<char>, Seq<char>, Seq<char>), Sel(Seq<char>, Seq<char>, Seq<char>),
    Index(Seq<char>, int), Missing(Seq<char>, Seq<char>), Invalid(Seq<char>), Identifier(Seq<char>), Other(FormatterError),
}
pub open spec fn ev(e: FormatterError) -> EV {
    match e {
        FormatterError::PatternNamed(a) => EV::Named(a@),
        FormatterError::PatternPart(a, i) => EV::Part(a@, i as int),
        FormatterError::InvalidOptionValue(a, b, c) => EV::OptionValue(a@, b@, c@),
        FormatterError::InvalidKeyword(a, b) => EV::Keyword(a@, b@),
        FormatterError::SelectorNamed(a, b, c) => EV::SelNamed(a@, b@, c@),
        FormatterError::SelectorOther(a, b) => EV::SelOther(a@, b@),
        FormatterError::InvalidOption(a, b, c) => EV::Opt(a@, b@, c@),
        FormatterError::InvalidSelector(a, b, c) => EV::Sel(a@, b@, c@),
        FormatterError::SelectorsIndexNamed(a, i) => EV::Index(a@, i as int),
        FormatterError::PlaceholderValue(a, b) => EV::Missing(a@, b@),
        FormatterError::InvalidValue(a) => EV::Invalid(a@),
        FormatterError::NamedStringIdentifier(a) => EV::Identifier(a@),
        x => EV::Other(x),
    }
}
// ---- values of placeholders (texts by their characters) ----------------------------------------
pub enum PV { Text(Seq<char>), Tagged(Seq<char>, RefCount<LanguageTag>), Localised(Seq<char>, RefCount<LanguageTag>), Other(PlaceholderValue) }
pub open spec fn pv(v: PlaceholderValue) -> PV {
    match v {
        PlaceholderValue::String(s) => PV::Text(s@),
        PlaceholderValue::TaggedString(t) => PV::Tagged(t.string@, t.tag),
        PlaceholderValue::Localised(s, t) => PV::Localised((*s)@, t),
        _ => PV::Other(v),
    }
}
pub open spec fn pvs(m: Map<VpK, PlaceholderValue>) -> Map<VpK, PV> { m.map_values(|v: PlaceholderValue| pv(v)) }
#[verifier::opaque]
pub open spec fn pvseq(s: Seq<PlaceholderValue>) -> Seq<PV> { s.map_values(|v: PlaceholderValue| pv(v)) }
impl Clone for PlaceholderValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: PlaceholderValue) ensures pv(r) == pv(*self) { unimplemented!() }
}
// ---- trusted: commands are functions of their parameters ---------------------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CommandFn { _p: u8 }
#[verifier::external_body]
pub struct CommandRegistry { _p: u8 }
pub uninterp spec fn cmd_result(f: CommandFn, p: Seq<PV>) -> Result<Seq<char>, CommandError>;
#[verifier::external_body]
pub fn vp_call(f: CommandFn, p: Vec<PlaceholderValue>) -> (r: Result<String, CommandError>)
    ensures match cmd_result(f, pvseq(p@)) { Ok(s) => r is Ok && r->Ok_0@ == s, Err(e) => r == Err::<String, CommandError>(e) },
{ unimplemented!() }
impl CommandRegistry {
    // contract of unit command
    pub uninterp spec fn lookup(&self, name: Seq<char>) -> Result<CommandFn, CommandError>;
    #[verifier::external_body]
    pub fn command(&self, name: &str) -> (r: Result<CommandFn, CommandError>) ensures r == self.lookup(name@) { unimplemented!() }
}
pub open spec fn run_command(reg: CommandRegistry, name: Seq<char>, p: Seq<PV>) -> Result<Seq<char>, EV> {
    match reg.lookup(name) {
        Err(e) => Err(EV::Other(FormatterError::Command(e))),
        Ok(f) => match cmd_result(f, p) { Ok(s) => Ok(s), Err(e) => Err(EV::Other(FormatterError::Command(e))) },
    }
}
// ---- trusted: slice iterators ------------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIter<'a, T> { _p: &'a Vec<T> }
impl<'a, T> VpIter<'a, T> {
    pub uninterp spec fn of(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).of() == old(self).of(),
            old(self).pos() < old(self).of().len() ==> r is Some && *r->Some_0 == old(self).of()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).of().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.of() == self.of(), r.pos() == self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Self) ensures r.of() == self.of(), r.pos() == if self.pos() + n <= self.of().len() { (self.pos() + n) as nat } else { self.of().len() } { unimplemented!() }
}
pub trait VpIterable<T> { fn vp_iter<'a>(&'a self) -> (r: VpIter<'a, T>); }
impl<T> VpIterable<T> for Vec<T> {
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: VpIter<'a, T>) ensures r.of() == self@, r.pos() == 0 { unimplemented!() }
}
@rewrite function($p) =>> vp_call(function, $p)
@rewrite RefCount::as_ref($x) =>> vp_deref($x)
@mid
#[verifier::external_body]
pub fn vp_deref<T>(x: &RefCount<T>) -> (r: &T) ensures *r == **x { unimplemented!() }
// Option::or, Option::or_else
pub fn vp_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == if a is Some { a } else { b } { match a { Some(x) => Some(x), None => b } }
@rewrite $x.or($y) =>> vp_or($x, $y)
@rewrite $x.or_else(|| $y) =>> vp_or($x, $y)
