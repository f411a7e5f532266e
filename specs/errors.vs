@unit errors
@features icu_compiled_data
@include common.vs
@include map.vs
@include types.vs
@prelude
// ---- trusted: foreign errors have a text, other crates' errors have localisation data ----------
#[verifier::external_body] pub struct IcuParserError { _p: u8 }
#[verifier::external_body] pub struct ParserError { _p: u8 }
#[verifier::external_body] pub struct CalendarError { _p: u8 }
#[verifier::external_body] pub struct ParseIntError { _p: u8 }
#[verifier::external_body] pub struct DecimalError { _p: u8 }
#[verifier::external_body] pub struct DateTimeError { _p: u8 }
#[verifier::external_body] pub struct PluralError { _p: u8 }
#[verifier::external_body] pub struct FixedDecimalError { _p: u8 }
#[verifier::external_body] pub struct IoError { _p: u8 }
#[verifier::external_body] pub struct Sqlite3Error { _p: u8 }
#[verifier::external_body] pub struct DynError { _p: u8 }
impl IcuParserError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl ParserError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl CalendarError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl ParseIntError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl DecimalError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl DateTimeError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl PluralError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl FixedDecimalError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl IoError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl Sqlite3Error { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl DynError {
    pub uninterp spec fn good(&self, d: LocalisationData) -> bool;
    #[verifier::external_body]
    pub fn localisation_data(&self) -> (r: LocalisationData) ensures self.good(r) { unimplemented!() }
}
#[verifier::external_body] pub struct PathBuf { _p: u8 }
#[verifier::external_body] pub struct PathDisplay { _p: u8 }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn display(&self) -> (r: PathDisplay) ensures r@ == self@ { unimplemented!() }
}
impl PathDisplay {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
// ---- what localisation data says ----------------------------------------------------------------
pub type Vals = Map<VpK, PlaceholderValue>;
pub open spec fn vals(d: LocalisationData) -> Vals { d.values->Some_0@ }
pub open spec fn txt(m: Vals, k: Seq<char>, v: Seq<char>) -> bool { m.contains_key(VpK::S(k)) && shown(m[VpK::S(k)], v) }
pub open spec fn num(m: Vals, k: Seq<char>, v: usize) -> bool {
    m.contains_key(VpK::S(k)) && m[VpK::S(k)] is String && vstd::string::to_string_from_display_ensures::<usize>(&v, m[VpK::S(k)]->String_0)
}
pub open spec fn shown(p: PlaceholderValue, v: Seq<char>) -> bool { p is String && p->String_0@ == v }
pub open spec fn own(p: PlaceholderValue) -> bool { p is LocalisationData }
// the name under which the frame string has the rest: {type}::{variant}: [{error}] or {type}::{variant}: ‘{message}’
pub open spec fn rest(d: LocalisationData) -> VpK { if d.identifier@ == "error_format_enum_embedded"@ { VpK::S("error"@) } else { VpK::S("message"@) } }
pub open spec fn inner(d: LocalisationData) -> PlaceholderValue { vals(d)[rest(d)] }
pub open spec fn framed(d: LocalisationData, ty: Seq<char>, variant: Seq<char>) -> bool {
    &&& d.component@ == "i18n_localiser"@
    &&& (d.identifier@ == "error_format_enum"@ || d.identifier@ == "error_format_enum_embedded"@)
    &&& d.values is Some && txt(vals(d), "type"@, ty) && txt(vals(d), "variant"@, variant) && vals(d).contains_key(rest(d))
}
pub open spec fn is_message(m: LocalisationData, component: Seq<char>, identifier: Seq<char>) -> bool { m.component@ == component && m.identifier@ == identifier }
pub open spec fn message(d: LocalisationData, component: Seq<char>, identifier: Seq<char>) -> bool {
    own(inner(d)) && is_message(inner(d)->LocalisationData_0, component, identifier)
}
pub open spec fn given(d: LocalisationData) -> bool { inner(d)->LocalisationData_0.values is Some }
pub open spec fn mvals(d: LocalisationData) -> Vals { vals(inner(d)->LocalisationData_0) }
@retype RefCount<Box<dyn LocalisationErrorTrait>> =>> DynError
@retype RefCount<Box<dyn ProviderErrorTrait>> =>> DynError
@file crates/localiser/src/tree.rs
@item NodeType
@item ParserState
@file crates/lexer/src/error.rs
@item IcuError
@item LexerError
@file crates/utility/src/error.rs
@item RegistryError
@file crates/provider/core/src/error.rs
@item ProviderError
@file crates/provider/sqlite3/src/error.rs
@item ProviderSqlite3Error
@item SchemaError
@file crates/localiser/src/error.rs
@item TreeError
@item CommandError
@item LocaliserError
@item FormatterError
@mid
impl NodeType { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl ParserState { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
@mid
pub proof fn lemma_keys()
    ensures
        "column"@ != "default"@,
        "column"@ != "property"@,
        "component"@ != "fallback"@,
        "component"@ != "identifier"@,
        "component"@ != "language"@,
        "component"@ != "language_tag"@,
        "error_format_enum"@ != "error_format_enum_embedded"@,
        "identifier"@ != "fallback"@,
        "identifier"@ != "index"@,
        "identifier"@ != "language_tag"@,
        "identifier"@ != "parameter"@,
        "keyword"@ != "identifier"@,
        "language_tag"@ != "fallback"@,
        "message"@ != "error"@,
        "named"@ != "identifier"@,
        "named"@ != "selector"@,
        "option"@ != "identifier"@,
        "option"@ != "keyword"@,
        "part"@ != "placeholder"@,
        "path"@ != "version"@,
        "position"@ != "token"@,
        "selector"@ != "identifier"@,
        "selector"@ != "keyword"@,
        "state"@ != "position"@,
        "state"@ != "token"@,
        "table"@ != "column"@,
        "table"@ != "default"@,
        "table"@ != "property"@,
        "type"@ != "error"@,
        "type"@ != "message"@,
        "type"@ != "variant"@,
        "value"@ != "keyword"@,
        "value"@ != "option"@,
        "variant"@ != "error"@,
        "variant"@ != "message"@,
{
    assert("column"@ != "default"@) by { reveal_strlit("column"); reveal_strlit("default"); assert("column"@.len() != "default"@.len()); }
    assert("column"@ != "property"@) by { reveal_strlit("column"); reveal_strlit("property"); assert("column"@.len() != "property"@.len()); }
    assert("component"@ != "fallback"@) by { reveal_strlit("component"); reveal_strlit("fallback"); assert("component"@.len() != "fallback"@.len()); }
    assert("component"@ != "identifier"@) by { reveal_strlit("component"); reveal_strlit("identifier"); assert("component"@.len() != "identifier"@.len()); }
    assert("component"@ != "language"@) by { reveal_strlit("component"); reveal_strlit("language"); assert("component"@.len() != "language"@.len()); }
    assert("component"@ != "language_tag"@) by { reveal_strlit("component"); reveal_strlit("language_tag"); assert("component"@.len() != "language_tag"@.len()); }
    assert("error_format_enum"@ != "error_format_enum_embedded"@) by { reveal_strlit("error_format_enum"); reveal_strlit("error_format_enum_embedded"); assert("error_format_enum"@.len() != "error_format_enum_embedded"@.len()); }
    assert("identifier"@ != "fallback"@) by { reveal_strlit("identifier"); reveal_strlit("fallback"); assert("identifier"@.len() != "fallback"@.len()); }
    assert("identifier"@ != "index"@) by { reveal_strlit("identifier"); reveal_strlit("index"); assert("identifier"@.len() != "index"@.len()); }
    assert("identifier"@ != "language_tag"@) by { reveal_strlit("identifier"); reveal_strlit("language_tag"); assert("identifier"@.len() != "language_tag"@.len()); }
    assert("identifier"@ != "parameter"@) by { reveal_strlit("identifier"); reveal_strlit("parameter"); assert("identifier"@.len() != "parameter"@.len()); }
    assert("keyword"@ != "identifier"@) by { reveal_strlit("keyword"); reveal_strlit("identifier"); assert("keyword"@.len() != "identifier"@.len()); }
    assert("language_tag"@ != "fallback"@) by { reveal_strlit("language_tag"); reveal_strlit("fallback"); assert("language_tag"@.len() != "fallback"@.len()); }
    assert("message"@ != "error"@) by { reveal_strlit("message"); reveal_strlit("error"); assert("message"@.len() != "error"@.len()); }
    assert("named"@ != "identifier"@) by { reveal_strlit("named"); reveal_strlit("identifier"); assert("named"@.len() != "identifier"@.len()); }
    assert("named"@ != "selector"@) by { reveal_strlit("named"); reveal_strlit("selector"); assert("named"@.len() != "selector"@.len()); }
    assert("option"@ != "identifier"@) by { reveal_strlit("option"); reveal_strlit("identifier"); assert("option"@.len() != "identifier"@.len()); }
    assert("option"@ != "keyword"@) by { reveal_strlit("option"); reveal_strlit("keyword"); assert("option"@.len() != "keyword"@.len()); }
    assert("part"@ != "placeholder"@) by { reveal_strlit("part"); reveal_strlit("placeholder"); assert("part"@.len() != "placeholder"@.len()); }
    assert("path"@ != "version"@) by { reveal_strlit("path"); reveal_strlit("version"); assert("path"@.len() != "version"@.len()); }
    assert("position"@ != "token"@) by { reveal_strlit("position"); reveal_strlit("token"); assert("position"@.len() != "token"@.len()); }
    assert("selector"@ != "identifier"@) by { reveal_strlit("selector"); reveal_strlit("identifier"); assert("selector"@.len() != "identifier"@.len()); }
    assert("selector"@ != "keyword"@) by { reveal_strlit("selector"); reveal_strlit("keyword"); assert("selector"@.len() != "keyword"@.len()); }
    assert("state"@ != "position"@) by { reveal_strlit("state"); reveal_strlit("position"); assert("state"@.len() != "position"@.len()); }
    assert("state"@ != "token"@) by { reveal_strlit("state"); reveal_strlit("token"); assert("state"@[0] != "token"@[0]); }
    assert("table"@ != "column"@) by { reveal_strlit("table"); reveal_strlit("column"); assert("table"@.len() != "column"@.len()); }
    assert("table"@ != "default"@) by { reveal_strlit("table"); reveal_strlit("default"); assert("table"@.len() != "default"@.len()); }
    assert("table"@ != "property"@) by { reveal_strlit("table"); reveal_strlit("property"); assert("table"@.len() != "property"@.len()); }
    assert("type"@ != "error"@) by { reveal_strlit("type"); reveal_strlit("error"); assert("type"@.len() != "error"@.len()); }
    assert("type"@ != "message"@) by { reveal_strlit("type"); reveal_strlit("message"); assert("type"@.len() != "message"@.len()); }
    assert("type"@ != "variant"@) by { reveal_strlit("type"); reveal_strlit("variant"); assert("type"@.len() != "variant"@.len()); }
    assert("value"@ != "keyword"@) by { reveal_strlit("value"); reveal_strlit("keyword"); assert("value"@.len() != "keyword"@.len()); }
    assert("value"@ != "option"@) by { reveal_strlit("value"); reveal_strlit("option"); assert("value"@.len() != "option"@.len()); }
    assert("variant"@ != "error"@) by { reveal_strlit("variant"); reveal_strlit("error"); assert("variant"@.len() != "error"@.len()); }
    assert("variant"@ != "message"@) by { reveal_strlit("variant"); reveal_strlit("message"); assert("variant"@[0] != "message"@[0]); }
}
impl IcuError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            IcuError::Grapheme => framed(d, "IcuError"@, "Grapheme"@) && message(d, "i18n_lexer"@, "grapheme"@),
            IcuError::Syntax => framed(d, "IcuError"@, "Syntax"@) && message(d, "i18n_lexer"@, "syntax"@),
            IcuError::WhiteSpace => framed(d, "IcuError"@, "WhiteSpace"@) && message(d, "i18n_lexer"@, "white_space"@),
        }
    }
}
impl LexerError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            LexerError::NoGrammar => framed(d, "LexerError"@, "NoGrammar"@) && message(d, "i18n_lexer"@, "no_grammar"@),
            LexerError::EmptyString => framed(d, "LexerError"@, "EmptyString"@) && message(d, "i18n_lexer"@, "empty_string"@),
        }
    }
}
impl RegistryError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            RegistryError::LanguageIdentifier(error) => framed(d, "RegistryError"@, "LanguageIdentifier"@) && shown(inner(d), error.text()),
        }
    }
}
impl ProviderError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            ProviderError::ComponentNotFound(component) => framed(d, "ProviderError"@, "ComponentNotFound"@) && message(d, "i18n_provider"@, "component_not_found"@) && given(d) && txt(mvals(d), "component"@, component@),
            ProviderError::LanguageTagRegistry(error) => framed(d, "ProviderError"@, "LanguageTagRegistry"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            ProviderError::DefaultLanguage(component) => framed(d, "ProviderError"@, "DefaultLanguage"@) && message(d, "i18n_provider"@, "default_language"@) && given(d) && txt(mvals(d), "component"@, component@),
            ProviderError::InvalidDefaultLanguage(component) => framed(d, "ProviderError"@, "InvalidDefaultLanguage"@) && message(d, "i18n_provider"@, "invalid_default_language"@) && given(d) && txt(mvals(d), "component"@, component@),
            ProviderError::DefaultLanguageCount(component, language) => framed(d, "ProviderError"@, "DefaultLanguageCount"@) && message(d, "i18n_provider"@, "default_language_count"@) && given(d) && txt(mvals(d), "component"@, component@) && txt(mvals(d), "language"@, language@),
            ProviderError::Custom(error) => framed(d, "ProviderError"@, "Custom"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
        }
    }
}
impl ProviderSqlite3Error {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            ProviderSqlite3Error::Io(error) => framed(d, "ProviderSqlite3Error"@, "Io"@) && shown(inner(d), error.text()),
            ProviderSqlite3Error::Sqlite3(error) => framed(d, "ProviderSqlite3Error"@, "Sqlite3"@) && shown(inner(d), error.text()),
            ProviderSqlite3Error::NotDirectory(path) => framed(d, "ProviderSqlite3Error"@, "NotDirectory"@) && message(d, "i18n_provider_sqlite3"@, "path_not_directory"@) && given(d) && txt(mvals(d), "path"@, path@),
            ProviderSqlite3Error::NoSqlite3Files(path) => framed(d, "ProviderSqlite3Error"@, "NoSqlite3Files"@) && message(d, "i18n_provider_sqlite3"@, "no_sqlite3"@) && given(d) && txt(mvals(d), "path"@, path@),
            ProviderSqlite3Error::PathConversion => framed(d, "ProviderSqlite3Error"@, "PathConversion"@) && message(d, "i18n_provider_sqlite3"@, "path_conversion"@),
            ProviderSqlite3Error::NotExists(path) => framed(d, "ProviderSqlite3Error"@, "NotExists"@) && message(d, "i18n_provider_sqlite3"@, "path_not_exist"@) && given(d) && txt(mvals(d), "path"@, path@),
            ProviderSqlite3Error::SchemaInvalid(error) => framed(d, "ProviderSqlite3Error"@, "SchemaInvalid"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
        }
    }
}
impl SchemaError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            SchemaError::Sqlite3(error) => framed(d, "SchemaError"@, "Sqlite3"@) && shown(inner(d), error.text()),
            SchemaError::MissingTable(name) => is_message(d, "i18n_provider_sqlite3"@, "missing_table"@) && d.values is Some && txt(vals(d), "name"@, name@),
            SchemaError::Version(path, version) => framed(d, "SchemaError"@, "Version"@) && message(d, "i18n_provider_sqlite3"@, "schema_version"@) && given(d) && txt(mvals(d), "path"@, path@) && txt(mvals(d), "version"@, version@),
            SchemaError::MissingVersion(path) => framed(d, "SchemaError"@, "MissingVersion"@) && message(d, "i18n_provider_sqlite3"@, "schema_version_missing"@) && given(d) && txt(mvals(d), "path"@, path@),
            SchemaError::MissingColumn(table, column) => is_message(d, "i18n_provider_sqlite3"@, "missing_column"@) && d.values is Some && txt(vals(d), "table"@, table@) && txt(vals(d), "column"@, column@),
            SchemaError::ColumnProperty(table, column, property) => is_message(d, "i18n_provider_sqlite3"@, "column_property"@) && d.values is Some && txt(vals(d), "table"@, table@) && txt(vals(d), "column"@, column@) && txt(vals(d), "property"@, property@),
            SchemaError::ColumnDefault(table, column, default) => is_message(d, "i18n_provider_sqlite3"@, "column_default"@) && d.values is Some && txt(vals(d), "table"@, table@) && txt(vals(d), "column"@, column@) && txt(vals(d), "default"@, default@),
            SchemaError::ColumnMismatch(table, column) => is_message(d, "i18n_provider_sqlite3"@, "column_mismatch"@) && d.values is Some && txt(vals(d), "table"@, table@) && txt(vals(d), "column"@, column@),
        }
    }
}
impl TreeError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            TreeError::Lexer(error) => framed(d, "TreeError"@, "Lexer"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            TreeError::EndedAbruptly => framed(d, "TreeError"@, "EndedAbruptly"@) && message(d, "i18n_localiser"@, "string_ended_abruptly"@),
            TreeError::InvalidToken(state, position, token) => framed(d, "TreeError"@, "InvalidToken"@) && message(d, "i18n_localiser"@, "invalid_token"@) && given(d) && txt(mvals(d), "state"@, state.text()) && num(mvals(d), "position"@, position) && txt(mvals(d), "token"@, token@),
            TreeError::UniquePattern(identifier) => framed(d, "TreeError"@, "UniquePattern"@) && message(d, "i18n_localiser"@, "unique_pattern"@) && given(d) && txt(mvals(d), "identifier"@, identifier@),
            TreeError::MultiNumberSign(position) => framed(d, "TreeError"@, "MultiNumberSign"@) && message(d, "i18n_localiser"@, "multi_number_sign"@) && given(d) && num(mvals(d), "position"@, position),
            TreeError::UniqueNamed(identifier) => framed(d, "TreeError"@, "UniqueNamed"@) && message(d, "i18n_localiser"@, "unique_named"@) && given(d) && txt(mvals(d), "identifier"@, identifier@),
        }
    }
}
impl CommandError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
    {
        match *self {
            CommandError::Custom(error) => framed(d, "CommandError"@, "Custom"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            CommandError::AlreadyExists(command) => framed(d, "CommandError"@, "AlreadyExists"@) && message(d, "i18n_localiser"@, "already_exists"@) && given(d) && txt(mvals(d), "identifier"@, command@),
            CommandError::NotFound(command) => framed(d, "CommandError"@, "NotFound"@) && message(d, "i18n_localiser"@, "command_not_found"@) && given(d) && txt(mvals(d), "identifier"@, command@),
            CommandError::ParameterMissing(command, index) => framed(d, "CommandError"@, "ParameterMissing"@) && message(d, "i18n_localiser"@, "parameter_missing"@) && given(d) && txt(mvals(d), "identifier"@, command@) && num(mvals(d), "parameter"@, index),
            CommandError::InvalidType(command, index) => framed(d, "CommandError"@, "InvalidType"@) && message(d, "i18n_localiser"@, "invalid_type"@) && given(d) && txt(mvals(d), "identifier"@, command@) && num(mvals(d), "parameter"@, index),
        }
    }
}
impl LocaliserError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
        decreases *self,
    {
        match *self {
            LocaliserError::Registry(error) => framed(d, "LocaliserError"@, "Registry"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            LocaliserError::Formatter(error) => framed(d, "LocaliserError"@, "Formatter"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            LocaliserError::Provider(error) => framed(d, "LocaliserError"@, "Provider"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            LocaliserError::StringNotFound(component, identifier, language_tag, fallback) => framed(d, "LocaliserError"@, "StringNotFound"@) && message(d, "i18n_localiser"@, "string_not_found"@) && given(d) && txt(mvals(d), "component"@, component@) && txt(mvals(d), "identifier"@, identifier@) && txt(mvals(d), "language_tag"@, language_tag@) && txt(mvals(d), "fallback"@, if fallback { "true"@ } else { "false"@ }),
            LocaliserError::CacheEntry(component, identifier) => framed(d, "LocaliserError"@, "CacheEntry"@) && message(d, "i18n_localiser"@, "cache_entry"@) && given(d) && txt(mvals(d), "component"@, component@) && txt(mvals(d), "identifier"@, identifier@),
            LocaliserError::NeverReached => framed(d, "LocaliserError"@, "NeverReached"@) && message(d, "i18n_localiser"@, "never_reach"@),
        }
    }
}
impl FormatterError {
    // what the localisation data of this error must have
    pub open spec fn good(&self, d: LocalisationData) -> bool
        decreases *self,
    {
        match *self {
            FormatterError::Localiser(error) => framed(d, "FormatterError"@, "Localiser"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            FormatterError::Tree(error) => framed(d, "FormatterError"@, "Tree"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            FormatterError::Locale(error) => framed(d, "FormatterError"@, "Locale"@) && shown(inner(d), error.text()),
            FormatterError::Calendar(error) => framed(d, "FormatterError"@, "Calendar"@) && shown(inner(d), error.text()),
            FormatterError::ParseInt(error) => framed(d, "FormatterError"@, "ParseInt"@) && shown(inner(d), error.text()),
            FormatterError::Decimal(error) => framed(d, "FormatterError"@, "Decimal"@) && shown(inner(d), error.text()),
            FormatterError::DateTime(error) => framed(d, "FormatterError"@, "DateTime"@) && shown(inner(d), error.text()),
            FormatterError::PluralRules(error) => framed(d, "FormatterError"@, "PluralRules"@) && shown(inner(d), error.text()),
            FormatterError::FixedDecimal(error) => framed(d, "FormatterError"@, "FixedDecimal"@) && shown(inner(d), error.text()),
            FormatterError::Command(error) => framed(d, "FormatterError"@, "Command"@) && own(inner(d)) && error.good(inner(d)->LocalisationData_0),
            FormatterError::InvalidRoot => framed(d, "FormatterError"@, "InvalidRoot"@) && message(d, "i18n_localiser"@, "invalid_root"@),
            FormatterError::NoGrammar => framed(d, "FormatterError"@, "NoGrammar"@) && message(d, "i18n_localiser"@, "no_grammar"@),
            FormatterError::RetrieveChildren(node_type) => framed(d, "FormatterError"@, "RetrieveChildren"@) && message(d, "i18n_localiser"@, "retrieve_children"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::NodeNotFound(node_type) => framed(d, "FormatterError"@, "NodeNotFound"@) && message(d, "i18n_localiser"@, "node_not_found"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::FirstChild(node_type) => framed(d, "FormatterError"@, "FirstChild"@) && message(d, "i18n_localiser"@, "first_child"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::RetrieveNodeData(node_type) => framed(d, "FormatterError"@, "RetrieveNodeData"@) && message(d, "i18n_localiser"@, "retrieve_node_data"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::RetrieveNodeToken(node_type) => framed(d, "FormatterError"@, "RetrieveNodeToken"@) && message(d, "i18n_localiser"@, "retrieve_node_token"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::LastChild(node_type) => framed(d, "FormatterError"@, "LastChild"@) && message(d, "i18n_localiser"@, "last_child"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::InvalidNode(node_type) => framed(d, "FormatterError"@, "InvalidNode"@) && message(d, "i18n_localiser"@, "invalid_node"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::PatternNamed(identifier) => framed(d, "FormatterError"@, "PatternNamed"@) && message(d, "i18n_localiser"@, "pattern_named"@) && given(d) && txt(mvals(d), "identifier"@, identifier@),
            FormatterError::PatternPart(identifier, index) => framed(d, "FormatterError"@, "PatternPart"@) && message(d, "i18n_localiser"@, "pattern_part"@) && given(d) && txt(mvals(d), "identifier"@, identifier@) && num(mvals(d), "index"@, index),
            FormatterError::InvalidOptionValue(value, option, keyword) => framed(d, "FormatterError"@, "InvalidOptionValue"@) && message(d, "i18n_localiser"@, "invalid_option_value"@) && given(d) && txt(mvals(d), "value"@, value@) && txt(mvals(d), "option"@, option@) && txt(mvals(d), "keyword"@, keyword@),
            FormatterError::InvalidKeyword(keyword, placeholder) => framed(d, "FormatterError"@, "InvalidKeyword"@) && message(d, "i18n_localiser"@, "invalid_keyword"@) && given(d) && txt(mvals(d), "keyword"@, keyword@) && txt(mvals(d), "identifier"@, placeholder@),
            FormatterError::SelectorNamed(named, selector, identifier) => framed(d, "FormatterError"@, "SelectorNamed"@) && message(d, "i18n_localiser"@, "selector_named"@) && given(d) && txt(mvals(d), "named"@, named@) && txt(mvals(d), "selector"@, selector@) && txt(mvals(d), "identifier"@, identifier@),
            FormatterError::SelectorOther(keyword, placeholder) => framed(d, "FormatterError"@, "SelectorOther"@) && message(d, "i18n_localiser"@, "selector_other"@) && given(d) && txt(mvals(d), "keyword"@, keyword@) && txt(mvals(d), "identifier"@, placeholder@),
            FormatterError::NoChildren(node_type) => framed(d, "FormatterError"@, "NoChildren"@) && message(d, "i18n_localiser"@, "no_children"@) && given(d) && txt(mvals(d), "node_type"@, node_type.text()),
            FormatterError::InvalidOption(option, keyword, placeholder) => framed(d, "FormatterError"@, "InvalidOption"@) && message(d, "i18n_localiser"@, "invalid_option"@) && given(d) && txt(mvals(d), "option"@, option@) && txt(mvals(d), "keyword"@, keyword@) && txt(mvals(d), "identifier"@, placeholder@),
            FormatterError::InvalidSelector(option, keyword, placeholder) => framed(d, "FormatterError"@, "InvalidSelector"@) && message(d, "i18n_localiser"@, "invalid_selector"@) && given(d) && txt(mvals(d), "selector"@, option@) && txt(mvals(d), "keyword"@, keyword@) && txt(mvals(d), "identifier"@, placeholder@),
            FormatterError::NumberSignString(index) => framed(d, "FormatterError"@, "NumberSignString"@) && message(d, "i18n_localiser"@, "number_sign_string"@) && given(d) && num(mvals(d), "index"@, index),
            FormatterError::SelectorsIndex(index) => framed(d, "FormatterError"@, "SelectorsIndex"@) && message(d, "i18n_localiser"@, "selectors_index"@) && given(d) && num(mvals(d), "index"@, index),
            FormatterError::SelectorsIndexNamed(identifier, index) => framed(d, "FormatterError"@, "SelectorsIndexNamed"@) && message(d, "i18n_localiser"@, "selectors_index_named"@) && given(d) && txt(mvals(d), "identifier"@, identifier@) && num(mvals(d), "index"@, index),
            FormatterError::PlaceholderValue(part, placeholder) => framed(d, "FormatterError"@, "PlaceholderValue"@) && message(d, "i18n_localiser"@, "placeholder_value"@) && given(d) && txt(mvals(d), "part"@, part@) && txt(mvals(d), "placeholder"@, placeholder@),
            FormatterError::InvalidValue(part) => framed(d, "FormatterError"@, "InvalidValue"@) && message(d, "i18n_localiser"@, "invalid_value"@) && given(d) && txt(mvals(d), "part"@, part@),
            FormatterError::NamedStringIdentifier(identifier) => framed(d, "FormatterError"@, "NamedStringIdentifier"@) && message(d, "i18n_localiser"@, "named_string_identifier"@) && given(d) && txt(mvals(d), "identifier"@, identifier@),
            FormatterError::NoIcuProvider => framed(d, "FormatterError"@, "NoIcuProvider"@) && message(d, "i18n_localiser"@, "no_icu_provider"@),
            FormatterError::NeverReached => framed(d, "FormatterError"@, "NeverReached"@) && message(d, "i18n_localiser"@, "never_reach"@),
        }
    }
}

impl DynError {
    // a boxed error is the error that was put into the box
    pub open spec fn of(&self, e: ProviderSqlite3Error) -> bool { forall|d: LocalisationData| #[trigger] self.good(d) == e.good(d) }
}
#[verifier::external_body]
pub fn vp_dyn(e: ProviderSqlite3Error) -> (r: DynError) ensures r.of(e) { unimplemented!() }
@rewrite RefCount::new(Box::new($x)) =>> vp_dyn($x)
@file crates/lexer/src/error.rs
@fn IcuError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/lexer/src/error.rs
@fn LexerError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/utility/src/error.rs
@fn RegistryError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/provider/core/src/error.rs
@fn ProviderError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/provider/sqlite3/src/error.rs
@fn ProviderSqlite3Error::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/provider/sqlite3/src/error.rs
@fn SchemaError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/localiser/src/error.rs
@fn TreeError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/localiser/src/error.rs
@fn CommandError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
@entry
proof { lemma_keys(); }
@file crates/localiser/src/error.rs
@fn LocaliserError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
        decreases *self,
@entry
proof { lemma_keys(); }
@file crates/localiser/src/error.rs
@fn FormatterError::localisation_data
@ret r
@spec
        ensures self.good(r), // [E01]
        decreases *self,
@entry
proof { lemma_keys(); }
@file crates/utility/src/error.rs
@fn RegistryError<From<ParserError>>::from
@rename from_ParserError
@spec
        ensures r == RegistryError::LanguageIdentifier(error), // [E01]
@file crates/provider/core/src/error.rs
@fn ProviderError<From<RegistryError>>::from
@rename from_RegistryError
@spec
        ensures r == ProviderError::LanguageTagRegistry(error), // [E01]
@file crates/provider/sqlite3/src/error.rs
@fn ProviderSqlite3Error<From<IoError>>::from
@rename from_IoError
@spec
        ensures r is Io, *r->Io_0 == error, // [E01]
@file crates/provider/sqlite3/src/error.rs
@fn ProviderSqlite3Error<From<Sqlite3Error>>::from
@rename from_Sqlite3Error
@spec
        ensures r is Sqlite3, *r->Sqlite3_0 == error, // [E01]
@file crates/provider/sqlite3/src/error.rs
@fn ProviderSqlite3Error<From<SchemaError>>::from
@rename from_SchemaError
@spec
        ensures r == ProviderSqlite3Error::SchemaInvalid(error), // [E01]
@file crates/provider/sqlite3/src/error.rs
@fn ProviderError<From<ProviderSqlite3Error>>::from
@rename from_ProviderSqlite3Error
@spec
        ensures r is Custom, r->Custom_0.of(error), // [E01]
@file crates/provider/sqlite3/src/error.rs
@fn SchemaError<From<Sqlite3Error>>::from
@rename from_Sqlite3Error
@spec
        ensures r is Sqlite3, *r->Sqlite3_0 == error, // [E01]
@file crates/localiser/src/error.rs
@fn TreeError<From<LexerError>>::from
@rename from_LexerError
@spec
        ensures r == TreeError::Lexer(error), // [E01]
@file crates/localiser/src/error.rs
@fn LocaliserError<From<RegistryError>>::from
@rename from_RegistryError
@spec
        ensures r == LocaliserError::Registry(error), // [E01]
@file crates/localiser/src/error.rs
@fn LocaliserError<From<FormatterError>>::from
@rename from_FormatterError
@spec
        ensures r == LocaliserError::Formatter(error), // [E01]
@file crates/localiser/src/error.rs
@fn LocaliserError<From<ProviderError>>::from
@rename from_ProviderError
@spec
        ensures r == LocaliserError::Provider(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<LocaliserError>>::from
@rename from_LocaliserError
@spec
        ensures r is Localiser, *r->Localiser_0 == error, // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<IcuParserError>>::from
@rename from_IcuParserError
@spec
        ensures r == FormatterError::Locale(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<CalendarError>>::from
@rename from_CalendarError
@spec
        ensures r == FormatterError::Calendar(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<ParseIntError>>::from
@rename from_ParseIntError
@spec
        ensures r == FormatterError::ParseInt(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<DecimalError>>::from
@rename from_DecimalError
@spec
        ensures r == FormatterError::Decimal(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<DateTimeError>>::from
@rename from_DateTimeError
@spec
        ensures r == FormatterError::DateTime(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<PluralError>>::from
@rename from_PluralError
@spec
        ensures r == FormatterError::PluralRules(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<FixedDecimalError>>::from
@rename from_FixedDecimalError
@spec
        ensures r == FormatterError::FixedDecimal(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<CommandError>>::from
@rename from_CommandError
@spec
        ensures r == FormatterError::Command(error), // [E01]
@file crates/localiser/src/error.rs
@fn FormatterError<From<TreeError>>::from
@rename from_TreeError
@spec
        ensures r == FormatterError::Tree(error), // [E01]

