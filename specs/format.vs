@unit format
@features icu_compiled_data
@include common.vs
@include map.vs
@include types.vs
@include fmt_types.vs
@include fmt_errors.vs
@include fmtwf.vs
@include split.vs
@desugar-for
@mid
// ---- trusted: ICU and fixed decimals as functions of locale, options and value -----------------
#[verifier::external_body] pub struct DataLocale { _p: u8 }
impl DataLocale {
    #[verifier::external_body]
    pub fn from(l: &IcuLanguage) -> (r: DataLocale) ensures r == loc(*l) { unimplemented!() }
}
pub uninterp spec fn loc(l: IcuLanguage) -> DataLocale;
pub struct FixedDecimalFormatterOptions { pub grouping_strategy: GroupingStrategy }
pub uninterp spec fn default_options() -> FixedDecimalFormatterOptions;
#[verifier::external_body]
pub fn vp_default_options() -> (r: FixedDecimalFormatterOptions) ensures r == default_options() { unimplemented!() }
#[verifier::external_body] pub struct FixedDecimalFormatter { _p: u8 }
#[verifier::external_body] pub struct FormattedFixedDecimal { _p: u8 }
pub uninterp spec fn icu_fdf(l: DataLocale, o: FixedDecimalFormatterOptions) -> Result<FixedDecimalFormatter, DecimalError>;
pub uninterp spec fn icu_decimal(f: FixedDecimalFormatter, d: FixedDecimal) -> Seq<char>;
impl FixedDecimalFormatter {
    #[verifier::external_body]
    pub fn try_new(l: &DataLocale, o: FixedDecimalFormatterOptions) -> (r: Result<FixedDecimalFormatter, DecimalError>) ensures r == icu_fdf(*l, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn format(&self, d: &FixedDecimal) -> (r: FormattedFixedDecimal) ensures r@ == icu_decimal(*self, *d) { unimplemented!() }
}
impl FormattedFixedDecimal {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub enum DoublePrecision { Integer, Floating }
pub enum NumSrc { U(u128), I(i128) }
pub trait VpNum: Sized { spec fn num(&self) -> NumSrc; }
impl VpNum for u128 { open spec fn num(&self) -> NumSrc { NumSrc::U(*self) } }
impl VpNum for i128 { open spec fn num(&self) -> NumSrc { NumSrc::I(*self) } }
pub uninterp spec fn fd_of(n: NumSrc) -> FixedDecimal;
pub uninterp spec fn fd_float(x: f64, p: DoublePrecision) -> Result<FixedDecimal, FixedDecimalError>;
pub uninterp spec fn fd_sign(d: FixedDecimal, s: SignDisplay) -> FixedDecimal;
impl FixedDecimal {
    #[verifier::external_body]
    pub fn from<N: VpNum>(n: N) -> (r: FixedDecimal) ensures r == fd_of(n.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from_f64(x: f64, p: DoublePrecision) -> (r: Result<FixedDecimal, FixedDecimalError>) ensures r == fd_float(x, p) { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_sign_display(&mut self, s: SignDisplay) ensures *final(self) == fd_sign(*old(self), s) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: FixedDecimal) ensures r == *self { unimplemented!() }
}
pub struct Bag { pub date: DateLength, pub time: TimeLength }
impl Bag {
    pub fn from_date_time_style(date: DateLength, time: TimeLength) -> (r: Bag) ensures r == (Bag { date, time }) { Bag { date, time } }
}
#[verifier::external_body] pub struct AnyDateTime { _p: u8 }
#[verifier::external_body] pub struct AnyDate { _p: u8 }
#[verifier::external_body] pub struct DateTimeFormatter { _p: u8 }
#[verifier::external_body] pub struct DateFormatter { _p: u8 }
#[verifier::external_body] pub struct TimeFormatter { _p: u8 }
pub uninterp spec fn any_dt(d: IsoDateTime) -> AnyDateTime;
pub uninterp spec fn any_d(d: IsoDate) -> AnyDate;
pub uninterp spec fn dt_of(d: IsoDate, t: Time) -> IsoDateTime;
impl IsoDateTime {
    #[verifier::external_body]
    pub fn to_any(&self) -> (r: AnyDateTime) ensures r == any_dt(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(d: IsoDate, t: Time) -> (r: IsoDateTime) ensures r == dt_of(d, t) { unimplemented!() }
}
impl IsoDate {
    #[verifier::external_body]
    pub fn to_any(&self) -> (r: AnyDate) ensures r == any_d(*self) { unimplemented!() }
}
pub uninterp spec fn icu_dtf(l: DataLocale, b: Bag) -> Result<DateTimeFormatter, DateTimeError>;
pub uninterp spec fn icu_df(l: DataLocale, b: DateLength) -> Result<DateFormatter, DateTimeError>;
pub uninterp spec fn icu_tf(l: DataLocale, b: TimeLength) -> Result<TimeFormatter, DateTimeError>;
pub uninterp spec fn icu_dt(f: DateTimeFormatter, d: AnyDateTime) -> Result<Seq<char>, DateTimeError>;
pub uninterp spec fn icu_d(f: DateFormatter, d: AnyDate) -> Result<Seq<char>, DateTimeError>;
pub uninterp spec fn icu_t(f: TimeFormatter, d: Time) -> Seq<char>;
pub open spec fn text_is(r: Result<String, DateTimeError>, s: Result<Seq<char>, DateTimeError>) -> bool {
    match s { Ok(x) => r is Ok && r->Ok_0@ == x, Err(e) => r == Err::<String, DateTimeError>(e) }
}
impl DateTimeFormatter {
    #[verifier::external_body]
    pub fn try_new(l: &DataLocale, b: Bag) -> (r: Result<DateTimeFormatter, DateTimeError>) ensures r == icu_dtf(*l, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn format_to_string(&self, d: &AnyDateTime) -> (r: Result<String, DateTimeError>) ensures text_is(r, icu_dt(*self, *d)) { unimplemented!() }
}
impl DateFormatter {
    #[verifier::external_body]
    pub fn try_new_with_length(l: &DataLocale, b: DateLength) -> (r: Result<DateFormatter, DateTimeError>) ensures r == icu_df(*l, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn format_to_string(&self, d: &AnyDate) -> (r: Result<String, DateTimeError>) ensures text_is(r, icu_d(*self, *d)) { unimplemented!() }
}
impl TimeFormatter {
    #[verifier::external_body]
    pub fn try_new_with_length(l: &DataLocale, b: TimeLength) -> (r: Result<TimeFormatter, DateTimeError>) ensures r == icu_tf(*l, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn format_to_string(&self, d: &Time) -> (r: String) ensures r@ == icu_t(*self, *d) { unimplemented!() }
}
#[verifier::external_body] pub struct PluralRules { _p: u8 }
pub uninterp spec fn icu_cardinal(l: DataLocale) -> Result<PluralRules, PluralError>;
pub uninterp spec fn icu_ordinal(l: DataLocale) -> Result<PluralRules, PluralError>;
pub uninterp spec fn icu_category(p: PluralRules, d: FixedDecimal) -> PluralCategory;
impl PluralRules {
    #[verifier::external_body]
    pub fn try_new_cardinal(l: &DataLocale) -> (r: Result<PluralRules, PluralError>) ensures r == icu_cardinal(*l) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_new_ordinal(l: &DataLocale) -> (r: Result<PluralRules, PluralError>) ensures r == icu_ordinal(*l) { unimplemented!() }
    #[verifier::external_body]
    pub fn category_for(&self, d: &FixedDecimal) -> (r: PluralCategory) ensures r == icu_category(*self, *d) { unimplemented!() }
}
// ISO texts (contract of unit iso: functions of the text)
pub uninterp spec fn iso_date(s: Seq<char>) -> Result<IsoDate, EV>;
pub uninterp spec fn iso_time(s: Seq<char>) -> Result<Time, EV>;
#[verifier::external_body]
pub fn decompose_iso_date(s: &str) -> (r: Result<IsoDate, FormatterError>)
    ensures match iso_date(s@) { Ok(d) => r == Ok::<IsoDate, FormatterError>(d), Err(e) => r is Err && ev(r->Err_0) == e } { unimplemented!() }
#[verifier::external_body]
pub fn decompose_iso_time(s: &str) -> (r: Result<Time, FormatterError>)
    ensures match iso_time(s@) { Ok(d) => r == Ok::<Time, FormatterError>(d), Err(e) => r is Err && ev(r->Err_0) == e } { unimplemented!() }
pub struct IcuDataProvider { pub data_provider: DataProvider }
impl IcuDataProvider {
    #[verifier::external_body]
    pub fn data_provider(&self) -> (r: &DataProvider) { unimplemented!() }
}
pub struct Localiser { pub command_registry: RefCount<CommandRegistry>, pub icu_data_provider: RefCount<IcuDataProvider> }
impl Localiser {
    #[verifier::external_body]
    pub fn command_registry(&self) -> (r: &RefCount<CommandRegistry>) ensures *r == self.command_registry { unimplemented!() }
    #[verifier::external_body]
    pub fn icu_data_provider(&self) -> (r: &RefCount<IcuDataProvider>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_clear_all(v: &mut Vec<String>)
    ensures final(v)@.len() == old(v)@.len(), texts(final(v)@) == Seq::new(old(v)@.len(), |i: int| Seq::<char>::empty()),
{ unimplemented!() }
// the iterator over the remaining parameters is used as it is
pub fn vp_into_iter<'a, T>(i: VpIter<'a, T>) -> (r: VpIter<'a, T>) ensures r == i { i }
@rewrite DateTime::<Iso>::new($d, $t) =>> IsoDateTime::new($d, $t)
@rewrite Default::default() =>> vp_default_options()
@rewrite _options.into() =>> _options
@rewrite value.split($c).collect() =>> vp_split(value, $c)
@rewrite $x.iter() =>> $x.vp_iter()
@restmt for $p in self.numbers.iter_mut() { $q.clear(); } =>> vp_clear_all(&mut self.numbers);
@provided decompose_iso_date decompose_iso_time
@file crates/lexer/src/icu.rs
@item DataProvider
@file crates/utility/src/tagged_string.rs
@fn TaggedString::as_str
    ensures r@ == self.string@,
@fn TaggedString::as_string
    ensures r@ == self.string@,
@mid
// ---- specification ---------------------------------------------------------------------------
pub type R = Result<Seq<char>, EV>;
// what a formatting depends on
pub struct Env {
    pub patterns: Map<VpK, Vec<PatternPart>>,
    pub selectors: Seq<HashMap<String, String>>,
    pub rank: Ranks,
    pub lang: IcuLanguage,
    pub reg: CommandRegistry,
    pub values: Map<VpK, PV>,
}
// result and the number strings after it
pub struct St { pub r: R, pub nums: Seq<Seq<char>> }
pub open spec fn prepend(a: Seq<char>, s: St) -> St {
    match s.r { Ok(b) => St { r: Ok(a + b), nums: s.nums }, Err(e) => s }
}
pub open spec fn lift<T, E>(r: Result<T, E>, f: spec_fn(E) -> FormatterError) -> Result<T, EV> {
    match r { Ok(t) => Ok(t), Err(e) => Err(ev(f(e))) }
}
pub open spec fn missing(kind: Seq<char>, p: Seq<char>) -> R { Err(EV::Missing(kind, p)) }
pub open spec fn category_name(c: PluralCategory) -> Seq<char> {
    match c {
        PluralCategory::Zero => "zero"@, PluralCategory::One => "one"@, PluralCategory::Two => "two"@,
        PluralCategory::Few => "few"@, PluralCategory::Many => "many"@, PluralCategory::Other => "other"@,
    }
}
// text of a value that is a text (F03)
pub open spec fn text_of(v: PV) -> Option<Seq<char>> {
    match v { PV::Text(s) => Some(s), PV::Tagged(s, _) => Some(s), PV::Localised(s, _) => Some(s), _ => None }
}
// a value that is a number as fixed decimal (F03)
pub open spec fn number_of(v: PV) -> Option<Result<FixedDecimal, EV>> {
    match v {
        PV::Other(PlaceholderValue::FixedDecimal(d)) => Some(Ok(d)),
        PV::Other(PlaceholderValue::Unsigned(n)) => Some(Ok(fd_of(NumSrc::U(n)))),
        PV::Other(PlaceholderValue::Integer(n)) => Some(Ok(fd_of(NumSrc::I(n)))),
        PV::Other(PlaceholderValue::Float(x)) => Some(match fd_float(x, DoublePrecision::Floating) { Ok(d) => Ok(d), Err(e) => Err(EV::Other(FormatterError::FixedDecimal(e))) }),
        _ => None,
    }
}
pub open spec fn sem_string(env: Env, p: Seq<char>) -> R {
    if !env.values.contains_key(VpK::S(p)) { missing("PatternString"@, p) } else {
        match text_of(env.values[VpK::S(p)]) { Some(s) => Ok(s), None => Err(EV::Invalid("PatternString"@)) }
    }
}
pub open spec fn with_group(g: Option<GroupingStrategy>) -> FixedDecimalFormatterOptions {
    match g { Some(x) => FixedDecimalFormatterOptions { grouping_strategy: x }, None => default_options() }
}
pub open spec fn sem_decimal(env: Env, p: Seq<char>, sign: Option<SignDisplay>, group: Option<GroupingStrategy>) -> R {
    if !env.values.contains_key(VpK::S(p)) { missing("PatternDecimal"@, p) } else {
        match icu_fdf(loc(env.lang), with_group(group)) {
            Err(e) => Err(EV::Other(FormatterError::Decimal(e))),
            Ok(f) => match number_of(env.values[VpK::S(p)]) {
                None => Err(EV::Invalid("PatternDecimal"@)),
                Some(Err(e)) => Err(e),
                Some(Ok(d)) => Ok(icu_decimal(f, match sign { Some(s) => fd_sign(d, s), None => d })),
            }
        }
    }
}
pub open spec fn sem_dt(l: DataLocale, b: Bag, d: IsoDateTime) -> R {
    match icu_dtf(l, b) { Err(e) => Err(EV::Other(FormatterError::DateTime(e))), Ok(f) => match icu_dt(f, any_dt(d)) { Ok(s) => Ok(s), Err(e) => Err(EV::Other(FormatterError::DateTime(e))) } }
}
pub open spec fn sem_d(l: DataLocale, b: DateLength, d: IsoDate) -> R {
    match icu_df(l, b) { Err(e) => Err(EV::Other(FormatterError::DateTime(e))), Ok(f) => match icu_d(f, any_d(d)) { Ok(s) => Ok(s), Err(e) => Err(EV::Other(FormatterError::DateTime(e))) } }
}
pub open spec fn sem_t(l: DataLocale, b: TimeLength, d: Time) -> R {
    match icu_tf(l, b) { Err(e) => Err(EV::Other(FormatterError::DateTime(e))), Ok(f) => Ok(icu_t(f, d)) }
}
pub open spec fn sem_date_time(env: Env, p: Seq<char>, length_date: Option<DateLength>, length_time: Option<TimeLength>, calendar: Option<IcuLanguage>) -> R {
    let ld = match length_date { Some(x) => x, None => DateLength::Medium };
    let lt = match length_time { Some(x) => x, None => TimeLength::Medium };
    let l = match calendar { Some(c) => loc(c), None => loc(env.lang) };
    let b = Bag { date: ld, time: lt };
    if !env.values.contains_key(VpK::S(p)) { missing("PatternDateTime"@, p) } else {
        match env.values[VpK::S(p)] {
            PV::Other(PlaceholderValue::DateTime(d)) => sem_dt(l, b, d),
            PV::Other(PlaceholderValue::Date(d)) => sem_d(l, ld, d),
            PV::Other(PlaceholderValue::Time(t)) => sem_t(l, lt, t),
            PV::Text(s) => {
                let parts = split_at(s, 'T');
                if parts.len() == 2 {
                    if parts[0].len() == 0 {
                        match iso_time(parts[1]) { Err(e) => Err(e), Ok(t) => sem_t(l, lt, t) }
                    } else {
                        match iso_date(parts[0]) { Err(e) => Err(e), Ok(d) => match iso_time(parts[1]) { Err(e) => Err(e), Ok(t) => sem_dt(l, b, dt_of(d, t)) } }
                    }
                } else {
                    match iso_date(parts[0]) { Err(e) => Err(e), Ok(d) => sem_d(l, ld, d) }
                }
            }
            _ => Err(EV::Invalid("PatternDateTime"@)),
        }
    }
}
// C03: a delayed command gets the supplied values for parameters that name them
#[verifier::opaque]
pub open spec fn command_params(env: Env, strings: Seq<PlaceholderValue>, n: int) -> Seq<PV>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { command_params(env, strings, n - 1).push(command_param(env, strings, n - 1)) }
}
pub open spec fn command_param(env: Env, strings: Seq<PlaceholderValue>, i: int) -> PV {
    let p = pv(strings[i]);
    if i > 0 && env.values.contains_key(VpK::S(p->Text_0)) { env.values[VpK::S(p->Text_0)] } else { p }
}
pub open spec fn sem_command(env: Env, strings: Seq<PlaceholderValue>) -> R {
    run_command(env.reg, strings[0]->String_0@, command_params(env, strings, strings.len() as int))
}
// every number sign of a named string is set to the number
pub open spec fn set_signs(parts: Seq<PatternPart>, n: int, nums: Seq<Seq<char>>, s: Seq<char>) -> Seq<Seq<char>>
    decreases n,
{
    if n <= 0 { nums } else {
        let m = set_signs(parts, n - 1, nums, s);
        match parts[n - 1] { PatternPart::NumberSign(k) => if k < m.len() { m.update(k as int, s) } else { m }, _ => m }
    }
}
// the named string of a selector, else that of `other`
pub open spec fn chosen(env: Env, index: int, key: Seq<char>) -> Option<Seq<char>> {
    let m = env.selectors[index]@;
    if m.contains_key(VpK::S(key)) { Some(m[VpK::S(key)]@) } else if m.contains_key(VpK::S("other"@)) { Some(m[VpK::S("other"@)]@) } else { None }
}
pub open spec fn rk(env: Env, name: Seq<char>) -> nat { (env.rank.name)(VpK::S(name)) }
pub open spec fn srk(env: Env, index: usize) -> nat { (env.rank.sel)(index as int) }
pub open spec fn sem_name(env: Env, name: Seq<char>, nums: Seq<Seq<char>>) -> St
    decreases rk(env, name), 1nat, 0nat,
{
    if !env.patterns.contains_key(VpK::S(name)) { St { r: Err(EV::Named(name)), nums } } else { sem_from(env, name, 0, nums) }
}
pub open spec fn parts_of(env: Env, name: Seq<char>) -> Seq<PatternPart> { env.patterns[VpK::S(name)]@ }
#[verifier::opaque]
pub open spec fn sem_from(env: Env, name: Seq<char>, i: nat, nums: Seq<Seq<char>>) -> St
    decreases rk(env, name), 0nat, (if i < parts_of(env, name).len() { 2 + parts_of(env, name).len() - i } else { 0 }) as nat,
{
    if i >= parts_of(env, name).len() { St { r: Ok(Seq::empty()), nums } } else {
        let a = sem_part(env, name, parts_of(env, name)[i as int], nums);
        match a.r { Err(e) => a, Ok(s) => prepend(s, sem_from(env, name, i + 1, a.nums)) }
    }
}
#[verifier::opaque]
pub open spec fn sem_part(env: Env, name: Seq<char>, part: PatternPart, nums: Seq<Seq<char>>) -> St
    decreases rk(env, name), 0nat, 2nat,
{
    match part {
        PatternPart::Text(t) => St { r: Ok(t@), nums },
        PatternPart::PatternString(p) => St { r: sem_string(env, p@), nums },
        PatternPart::PatternDecimal { placeholder, sign, group } => St { r: sem_decimal(env, placeholder@, sign, group), nums },
        PatternPart::PatternDateTime { placeholder, length_date, length_time, calendar } => St { r: sem_date_time(env, placeholder@, length_date, length_time, calendar), nums },
        PatternPart::NumberSign(k) => St { r: if k < nums.len() { Ok(nums[k as int]) } else { Err(EV::Other(FormatterError::NumberSignString(k))) }, nums },
        PatternPart::Command { strings } => St { r: sem_command(env, strings@), nums },
        PatternPart::PatternComplex { placeholder, complex, selectors } =>
            if !env.values.contains_key(VpK::S(placeholder@)) { St { r: missing("PatternComplex"@, placeholder@), nums } }
            else if srk(env, selectors) > rk(env, name) { St { r: Err(EV::Other(FormatterError::NeverReached)), nums } } // never: see ranked
            else {
                let v = env.values[VpK::S(placeholder@)];
                match complex {
                    ComplexType::Plural => match icu_cardinal(loc(env.lang)) {
                        Err(e) => St { r: Err(EV::Other(FormatterError::PluralRules(e))), nums },
                        Ok(rules) => match number_of(v) {
                            None => St { r: Err(EV::Invalid("PatternPlural"@)), nums },
                            Some(Err(e)) => St { r: Err(e), nums },
                            Some(Ok(d)) => sem_plural(env, d, rules, selectors, nums),
                        }
                    },
                    ComplexType::Ordinal => match icu_ordinal(loc(env.lang)) {
                        Err(e) => St { r: Err(EV::Other(FormatterError::PluralRules(e))), nums },
                        Ok(rules) => match v {
                            PV::Other(PlaceholderValue::Unsigned(n)) => sem_plural(env, fd_of(NumSrc::U(n)), rules, selectors, nums),
                            _ => St { r: Err(EV::Invalid("PatternOrdinal"@)), nums },
                        }
                    },
                    ComplexType::Select => match text_of(v) {
                        None => St { r: Err(EV::Invalid("PatternSelect"@)), nums },
                        Some(s) => sem_select(env, s, selectors, nums),
                    },
                }
            },
    }
}
#[verifier::opaque]
pub open spec fn sem_plural(env: Env, d: FixedDecimal, rules: PluralRules, index: usize, nums: Seq<Seq<char>>) -> St
    decreases srk(env, index), 0nat, 1nat,
{
    let cat = category_name(icu_category(rules, d));
    match icu_fdf(loc(env.lang), default_options()) {
        Err(e) => St { r: Err(EV::Other(FormatterError::Decimal(e))), nums },
        Ok(f) => if index >= env.selectors.len() { St { r: Err(EV::Other(FormatterError::SelectorsIndex(index))), nums } } else {
            match chosen(env, index as int, cat) {
                None => St { r: Err(EV::Index(cat, index as int)), nums },
                Some(n2) => if rk(env, n2) < srk(env, index) { sem_name(env, n2, set_signs(parts_of(env, n2), parts_of(env, n2).len() as int, nums, icu_decimal(f, d))) }
                    else { St { r: Err(EV::Named(n2)), nums } },
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn sem_select(env: Env, s: Seq<char>, index: usize, nums: Seq<Seq<char>>) -> St
    decreases srk(env, index), 0nat, 1nat,
{
    if index >= env.selectors.len() { St { r: Err(EV::Other(FormatterError::SelectorsIndex(index))), nums } } else {
        match chosen(env, index as int, s) {
            None => St { r: Err(EV::Index(s, index as int)), nums },
            Some(n2) => if rk(env, n2) < srk(env, index) { sem_name(env, n2, nums) } else { St { r: Err(EV::Named(n2)), nums } },
        }
    }
}
pub open spec fn the_rank(patterns: Map<VpK, Vec<PatternPart>>, selectors: Seq<HashMap<String, String>>) -> Ranks {
    choose|rank: Ranks| ranked(patterns, selectors, rank)
}
impl Formatter {
    pub open spec fn wf(&self) -> bool { wf_of(self.patterns@, self.selectors@, self.numbers@.len()) }
    pub open spec fn same_but_numbers(&self, o: &Formatter) -> bool {
        self.patterns == o.patterns && self.selectors == o.selectors && self.icu_language == o.icu_language && self.language_tag == o.language_tag
            && self.numbers@.len() == o.numbers@.len()
    }
    pub open spec fn env(&self, l: &Localiser, values: &HashMap<String, PlaceholderValue>) -> Env {
        Env { patterns: self.patterns@, selectors: self.selectors@, rank: the_rank(self.patterns@, self.selectors@), lang: *self.icu_language, reg: *l.command_registry, values: pvs(values@) }
    }
}
// a call that ended as the specification says
pub open spec fn ends(r: Result<(), FormatterError>, before: Seq<char>, string: Seq<char>, nums: Seq<Seq<char>>, s: St) -> bool {
    match s.r { Ok(x) => r is Ok && string == before + x && nums == s.nums, Err(e) => r is Err && ev(r->Err_0) == e }
}
proof fn lemma_prepend(a: Seq<char>, b: Seq<char>, s: St)
    ensures prepend(a, prepend(b, s)) == prepend(a + b, s),
{
    if s.r is Ok { assert(a + (b + s.r->Ok_0) =~= (a + b) + s.r->Ok_0); }
}
proof fn lemma_wf(f: Formatter, n: Seq<char>, i: int)
    requires f.wf(), f.patterns@.contains_key(VpK::S(n)), 0 <= i < f.patterns@[VpK::S(n)]@.len(),
    ensures part_ok(f.patterns@[VpK::S(n)]@[i], f.selectors@, f.numbers@.len()),
        f.patterns@[VpK::S(n)]@[i] is PatternComplex ==> (the_rank(f.patterns@, f.selectors@).sel)(f.patterns@[VpK::S(n)]@[i]->selectors as int) <= (the_rank(f.patterns@, f.selectors@).name)(VpK::S(n)),
{ reveal(wf_of); reveal(ranked); }
proof fn lemma_params(env: Env, strings: Seq<PlaceholderValue>, n: int, p: Seq<PlaceholderValue>)
    requires 0 <= n, n > 0 ==> pvseq(p) == command_params(env, strings, n), n == 0 ==> p.len() == 0,
    ensures
        pvseq(p) == command_params(env, strings, n),
        forall|x: PlaceholderValue| pv(x) == command_param(env, strings, n) ==> #[trigger] pvseq(p.push(x)) == command_params(env, strings, n + 1),
{
    reveal_with_fuel(command_params, 2); reveal(pvseq);
    assert(n == 0 ==> pvseq(p) =~= Seq::<PV>::empty());
    assert forall|x: PlaceholderValue| pv(x) == command_param(env, strings, n) implies #[trigger] pvseq(p.push(x)) == command_params(env, strings, n + 1) by {
        assert(pvseq(p.push(x)) =~= pvseq(p).push(pv(x)));
    }
}
// one unfolding of sem_part
pub open spec fn part_sem(env: Env, name: Seq<char>, part: PatternPart, nums: Seq<Seq<char>>) -> St {
    match part {
        PatternPart::Text(t) => St { r: Ok(t@), nums },
        PatternPart::PatternString(p) => St { r: sem_string(env, p@), nums },
        PatternPart::PatternDecimal { placeholder, sign, group } => St { r: sem_decimal(env, placeholder@, sign, group), nums },
        PatternPart::PatternDateTime { placeholder, length_date, length_time, calendar } => St { r: sem_date_time(env, placeholder@, length_date, length_time, calendar), nums },
        PatternPart::NumberSign(k) => St { r: if k < nums.len() { Ok(nums[k as int]) } else { Err(EV::Other(FormatterError::NumberSignString(k))) }, nums },
        PatternPart::Command { strings } => St { r: sem_command(env, strings@), nums },
        PatternPart::PatternComplex { placeholder, complex, selectors } =>
            if !env.values.contains_key(VpK::S(placeholder@)) { St { r: missing("PatternComplex"@, placeholder@), nums } }
            else if srk(env, selectors) > rk(env, name) { St { r: Err(EV::Other(FormatterError::NeverReached)), nums } } // never: see ranked
            else {
                let v = env.values[VpK::S(placeholder@)];
                match complex {
                    ComplexType::Plural => match icu_cardinal(loc(env.lang)) {
                        Err(e) => St { r: Err(EV::Other(FormatterError::PluralRules(e))), nums },
                        Ok(rules) => match number_of(v) {
                            None => St { r: Err(EV::Invalid("PatternPlural"@)), nums },
                            Some(Err(e)) => St { r: Err(e), nums },
                            Some(Ok(d)) => sem_plural(env, d, rules, selectors, nums),
                        }
                    },
                    ComplexType::Ordinal => match icu_ordinal(loc(env.lang)) {
                        Err(e) => St { r: Err(EV::Other(FormatterError::PluralRules(e))), nums },
                        Ok(rules) => match v {
                            PV::Other(PlaceholderValue::Unsigned(n)) => sem_plural(env, fd_of(NumSrc::U(n)), rules, selectors, nums),
                            _ => St { r: Err(EV::Invalid("PatternOrdinal"@)), nums },
                        }
                    },
                    ComplexType::Select => match text_of(v) {
                        None => St { r: Err(EV::Invalid("PatternSelect"@)), nums },
                        Some(s) => sem_select(env, s, selectors, nums),
                    },
                }
            },
    }
}
proof fn lemma_part(env: Env, name: Seq<char>, part: PatternPart, nums: Seq<Seq<char>>)
    ensures sem_part(env, name, part, nums) == part_sem(env, name, part, nums),
{
    reveal(sem_part); reveal(sem_plural); reveal(sem_select);
}
// one step of the loop over the parts
proof fn lemma_step(env: Env, name: Seq<char>, i: nat, nums0: Seq<Seq<char>>, nums: Seq<Seq<char>>, s: Seq<char>)
    requires i < parts_of(env, name).len(), sem_from(env, name, 0, nums0) == prepend(s, sem_from(env, name, i, nums)),
    ensures ({
        let w = sem_part(env, name, parts_of(env, name)[i as int], nums);
        &&& w.r is Err ==> sem_from(env, name, 0, nums0) == w
        &&& w.r is Ok ==> sem_from(env, name, 0, nums0) == prepend(s + w.r->Ok_0, sem_from(env, name, i + 1, w.nums))
    }),
{
    reveal(sem_from); reveal(sem_part);
    let w = sem_part(env, name, parts_of(env, name)[i as int], nums);
    if w.r is Ok { lemma_prepend(s, w.r->Ok_0, sem_from(env, name, i + 1, w.nums)); }
}
proof fn lemma_ends(env: Env, name: Seq<char>, nums: Seq<Seq<char>>)
    ensures sem_from(env, name, parts_of(env, name).len(), nums) == (St { r: Ok(Seq::empty()), nums }),
        prepend(Seq::<char>::empty(), sem_from(env, name, 0, nums)) == sem_from(env, name, 0, nums),
        env.patterns.contains_key(VpK::S(name)) ==> sem_name(env, name, nums) == sem_from(env, name, 0, nums),
{
    reveal(sem_from); reveal(sem_part);
    let x = sem_from(env, name, 0, nums);
    if x.r is Ok { assert(Seq::<char>::empty() + x.r->Ok_0 =~= x.r->Ok_0); }
}
@file crates/localiser/src/formatter.rs
@fn Formatter::format
@props F02 F03 F04
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but_numbers(old(self)),
        match sem_name(old(self).env(localiser, values), "_"@, Seq::new(old(self).numbers@.len(), |i: int| Seq::<char>::empty())).r { // [F02] [F03] [F04]
            Ok(s) => r is Ok && r->Ok_0.0@ == s && *r->Ok_0.1 == old(self).language_tag, // [F02] [F03] [F04]
            Err(e) => r is Err && ev(r->Err_0) == e, // [F02] [F03] [F04]
        }, // [F02] [F03] [F04]

@fn Formatter::part_ref
    ensures
        r is Some <==> self.patterns@.contains_key(VpK::S(string@)) && *index < self.patterns@[VpK::S(string@)]@.len(),
        r is Some ==> *r->Some_0 == self.patterns@[VpK::S(string@)]@[*index as int],

@fn Formatter::format_pattern
@split
@props F02 F03 F04 C03
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but_numbers(old(self)),
        match sem_name(old(self).env(localiser, values), named@, texts(old(self).numbers@)).r { // [F02] [F03] [F04] [C03]
            Ok(s) => r is Ok && r->Ok_0@ == s && texts(final(self).numbers@) == sem_name(old(self).env(localiser, values), named@, texts(old(self).numbers@)).nums, // [F02] [F03] [F04] [C03]
            Err(e) => r is Err && ev(r->Err_0) == e, // [F02] [F03] [F04] [C03]
        }, // [F02] [F03] [F04] [C03]
    decreases rk(old(self).env(localiser, values), named@), 2nat,
@entry
    let ghost env0 = self.env(localiser, values);
    let ghost nums0 = texts(self.numbers@);
    proof { lemma_ends(env0, named@, nums0); }
@loop 0
    invariant
        self.wf(), self.same_but_numbers(old(self)), env0 == old(self).env(localiser, values), nums0 == texts(old(self).numbers@),
        sem_name(env0, named@, nums0) == sem_from(env0, named@, 0, nums0), i <= _len, _len == parts_of(env0, named@).len(), env0.patterns.contains_key(VpK::S(named@)),
        sem_from(env0, named@, 0, nums0) == prepend(string@, sem_from(env0, named@, i as nat, texts(self.numbers@))), // [F02] [F03] [F04] [C03]
    decreases _len - i,
@head 0
    let ghost s0 = string@;
    let ghost n0 = texts(self.numbers@);
    let ghost p0 = parts_of(env0, named@)[i as int];
    let ghost w0 = sem_part(env0, named@, p0, n0);
    proof {
        lemma_step(env0, named@, i as nat, nums0, n0, s0);
        lemma_wf(*self, named@, i as int);
        assert(self.env(localiser, values) == env0);
        lemma_part(env0, named@, p0, n0);
    }
@foot 0
    assert(w0.r is Ok && string@ == s0 + w0.r->Ok_0 && texts(self.numbers@) == w0.nums); // [F02] [F03] [F04] [C03]
@loop 1
    invariant
        vp_it0.of() == strings@, 1 <= vp_it0.pos() <= strings@.len(), env0.values == pvs(values@),
        forall|i: int| 0 <= i < strings@.len() ==> (#[trigger] strings@[i]) is String,
        pvseq(parameters@) == command_params(env0, strings@, vp_it0.pos() as int), // [C03]
    ensures vp_it0.pos() == strings@.len(),
    decreases strings@.len() - vp_it0.pos(),
@head 1
    proof { lemma_params(env0, strings@, vp_it0.pos() - 1, parameters@); }
@before 1
    proof { lemma_params(env0, strings@, 0, Seq::<PlaceholderValue>::empty()); assert(parameters@ =~= Seq::<PlaceholderValue>::empty().push(parameters@[0])); }
@after 0
    proof { lemma_ends(env0, named@, texts(self.numbers@)); assert(string@ + Seq::<char>::empty() =~= string@); }

@fn Formatter::find_number_sign
@props F02
@attr #[verifier::loop_isolation(false)]
@spec
    requires
        old(self).wf(), *data_locale == loc(*old(self).icu_language), selectors_index < old(self).selectors@.len(),
    ensures final(self).wf(), final(self).same_but_numbers(old(self)),
        ends(r, old(string)@, final(string)@, texts(final(self).numbers@), sem_plural(old(self).env(localiser, values), *fixed_decimal, plurals, selectors_index, texts(old(self).numbers@))), // [F02] [F03] [F04]
    decreases srk(old(self).env(localiser, values), selectors_index), 1nat,
@entry
    let ghost env0 = self.env(localiser, values);
    let ghost nums0 = texts(self.numbers@);
    proof { reveal(sem_plural); reveal(ranked); reveal(wf_of); }
@loop 0
    invariant
        self.wf(), self.same_but_numbers(old(self)), i <= _len, _len == parts_of(env0, _named@).len(), env0.patterns.contains_key(VpK::S(_named@)),
        texts(self.numbers@) == set_signs(parts_of(env0, _named@), i as int, nums0, number_string@), // [F02]
    decreases _len - i,
@head 0
    proof {
        assert(part_ok(self.patterns@[VpK::S(_named@)]@[i as int], self.selectors@, self.numbers@.len()));
    }
@after 0
    assert(self.env(localiser, values) == env0);

@fn Formatter::select
@props F02
@spec
    requires old(self).wf(), selectors_index < old(self).selectors@.len(),
    ensures final(self).wf(), final(self).same_but_numbers(old(self)),
        ends(r, old(string)@, final(string)@, texts(final(self).numbers@), sem_select(old(self).env(localiser, values), string_value@, selectors_index, texts(old(self).numbers@))), // [F02] [F03] [F04]
    decreases srk(old(self).env(localiser, values), selectors_index), 1nat,
@entry
    proof { reveal(sem_select); reveal(ranked); reveal(wf_of); }

@fn Formatter::update_number_part
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but_numbers(old(self)),
        r is Ok <==> index < old(self).numbers@.len(),
        r is Ok ==> texts(final(self).numbers@) == texts(old(self).numbers@).update(index as int, number_string@),
        r is Err ==> ev(r->Err_0) == EV::Other(FormatterError::NumberSignString(index)),
@fn Formatter::fixed_decimal_formatter
    ensures lift(r, |e: FormatterError| e) == lift(icu_fdf(*_data_locale, _options), |e: DecimalError| FormatterError::Decimal(e)), // [F02]
@fn Formatter::date_time_formatter
    ensures lift(r, |e: FormatterError| e) == lift(icu_dtf(*_data_locale, _options), |e: DateTimeError| FormatterError::DateTime(e)), // [F02]
@fn Formatter::date_formatter
    ensures lift(r, |e: FormatterError| e) == lift(icu_df(*_data_locale, _length_date), |e: DateTimeError| FormatterError::DateTime(e)), // [F02]
@fn Formatter::time_formatter
    ensures lift(r, |e: FormatterError| e) == lift(icu_tf(*_data_locale, _length_time), |e: DateTimeError| FormatterError::DateTime(e)), // [F02]
@fn Formatter::plural_rules_cardinal
    ensures lift(r, |e: FormatterError| e) == lift(icu_cardinal(*_data_locale), |e: PluralError| FormatterError::PluralRules(e)), // [F02]
@fn Formatter::plural_rules_ordinal
    ensures lift(r, |e: FormatterError| e) == lift(icu_ordinal(*_data_locale), |e: PluralError| FormatterError::PluralRules(e)), // [F02]
@fn plural_category
    ensures r@ == category_name(category), // [F02]
