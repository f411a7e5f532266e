@broadcast vp_axiom_from_same vp_axiom_from_locale vp_axiom_from_calendar vp_axiom_from_parseint vp_axiom_from_decimal vp_axiom_from_datetime vp_axiom_from_pluralrules vp_axiom_from_fixeddecimal vp_axiom_from_command vp_axiom_from_tree
@axioms
// `?` converts errors with From: each is wrapped in its variant (error.rs)
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_same(e: FormatterError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, FormatterError>(e, r) ==> r == e,
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_locale(e: IcuParserError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, IcuParserError>(e, r) ==> r == FormatterError::Locale(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_calendar(e: CalendarError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, CalendarError>(e, r) ==> r == FormatterError::Calendar(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_parseint(e: ParseIntError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, ParseIntError>(e, r) ==> r == FormatterError::ParseInt(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_decimal(e: DecimalError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, DecimalError>(e, r) ==> r == FormatterError::Decimal(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_datetime(e: DateTimeError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, DateTimeError>(e, r) ==> r == FormatterError::DateTime(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_pluralrules(e: PluralError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, PluralError>(e, r) ==> r == FormatterError::PluralRules(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_fixeddecimal(e: FixedDecimalError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, FixedDecimalError>(e, r) ==> r == FormatterError::FixedDecimal(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_command(e: CommandError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, CommandError>(e, r) ==> r == FormatterError::Command(e),
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_from_tree(e: TreeError, r: FormatterError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<FormatterError, TreeError>(e, r) ==> r == FormatterError::Tree(e),
{}
@mid
// the conversions of error.rs, which `?` uses (same bodies)
impl vstd::std_specs::convert::FromSpecImpl<IcuParserError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IcuParserError) -> FormatterError { FormatterError::Locale(e) }
}
impl From<IcuParserError> for FormatterError { fn from(e: IcuParserError) -> FormatterError { FormatterError::Locale(e) } }
impl vstd::std_specs::convert::FromSpecImpl<CalendarError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: CalendarError) -> FormatterError { FormatterError::Calendar(e) }
}
impl From<CalendarError> for FormatterError { fn from(e: CalendarError) -> FormatterError { FormatterError::Calendar(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParseIntError) -> FormatterError { FormatterError::ParseInt(e) }
}
impl From<ParseIntError> for FormatterError { fn from(e: ParseIntError) -> FormatterError { FormatterError::ParseInt(e) } }
impl vstd::std_specs::convert::FromSpecImpl<DecimalError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DecimalError) -> FormatterError { FormatterError::Decimal(e) }
}
impl From<DecimalError> for FormatterError { fn from(e: DecimalError) -> FormatterError { FormatterError::Decimal(e) } }
impl vstd::std_specs::convert::FromSpecImpl<DateTimeError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DateTimeError) -> FormatterError { FormatterError::DateTime(e) }
}
impl From<DateTimeError> for FormatterError { fn from(e: DateTimeError) -> FormatterError { FormatterError::DateTime(e) } }
impl vstd::std_specs::convert::FromSpecImpl<PluralError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: PluralError) -> FormatterError { FormatterError::PluralRules(e) }
}
impl From<PluralError> for FormatterError { fn from(e: PluralError) -> FormatterError { FormatterError::PluralRules(e) } }
impl vstd::std_specs::convert::FromSpecImpl<FixedDecimalError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FixedDecimalError) -> FormatterError { FormatterError::FixedDecimal(e) }
}
impl From<FixedDecimalError> for FormatterError { fn from(e: FixedDecimalError) -> FormatterError { FormatterError::FixedDecimal(e) } }
impl vstd::std_specs::convert::FromSpecImpl<CommandError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: CommandError) -> FormatterError { FormatterError::Command(e) }
}
impl From<CommandError> for FormatterError { fn from(e: CommandError) -> FormatterError { FormatterError::Command(e) } }
impl vstd::std_specs::convert::FromSpecImpl<TreeError> for FormatterError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TreeError) -> FormatterError { FormatterError::Tree(e) }
}
impl From<TreeError> for FormatterError { fn from(e: TreeError) -> FormatterError { FormatterError::Tree(e) } }
