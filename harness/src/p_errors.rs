//! E01: the localisation data of errors, and the strings supplied for them
use crate::{fixtures, model, rng::Rng, Check, Prop};
use i18n_lexer::{IcuError, LexerError};
use i18n_localiser::{CommandError, FormatterError, Localiser, LocaliserError, TreeError};
use i18n_provider::{ProviderError, ProviderErrorTrait};
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::{LocalisationData, LocalisationErrorTrait, LocalisationTrait, PlaceholderValue, RegistryError};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::PathBuf;
use crate::fixtures::Rc;

// type, variant, kind (m: message, p: message without type and variant, o: error of the crates,
// f: error of another crate), component and identifier of the message, names of its values, kinds
// of the fields
pub const TABLE: &[(&str, &str, &str, &str, &str, &[&str], &[&str])] = &[
    ("IcuError", "Grapheme", "m", "i18n_lexer", "grapheme", &[], &[]),
    ("IcuError", "Syntax", "m", "i18n_lexer", "syntax", &[], &[]),
    ("IcuError", "WhiteSpace", "m", "i18n_lexer", "white_space", &[], &[]),
    ("LexerError", "NoGrammar", "m", "i18n_lexer", "no_grammar", &[], &[]),
    ("LexerError", "EmptyString", "m", "i18n_lexer", "empty_string", &[], &[]),
    ("RegistryError", "LanguageIdentifier", "f", "", "", &[], &["f_locale"]),
    ("ProviderError", "ComponentNotFound", "m", "i18n_provider", "component_not_found", &["component"], &["s"]),
    ("ProviderError", "LanguageTagRegistry", "o", "", "", &[], &["@RegistryError"]),
    ("ProviderError", "DefaultLanguage", "m", "i18n_provider", "default_language", &["component"], &["s"]),
    ("ProviderError", "InvalidDefaultLanguage", "m", "i18n_provider", "invalid_default_language", &["component"], &["s"]),
    ("ProviderError", "DefaultLanguageCount", "m", "i18n_provider", "default_language_count", &["component", "language"], &["s", "s"]),
    ("ProviderError", "Custom", "o", "", "", &[], &["dyn"]),
    ("ProviderSqlite3Error", "Io", "f", "", "", &[], &["f_io"]),
    ("ProviderSqlite3Error", "Sqlite3", "f", "", "", &[], &["f_sql"]),
    ("ProviderSqlite3Error", "NotDirectory", "m", "i18n_provider_sqlite3", "path_not_directory", &["path"], &["s"]),
    ("ProviderSqlite3Error", "NoSqlite3Files", "m", "i18n_provider_sqlite3", "no_sqlite3", &["path"], &["s"]),
    ("ProviderSqlite3Error", "PathConversion", "m", "i18n_provider_sqlite3", "path_conversion", &[], &[]),
    ("ProviderSqlite3Error", "NotExists", "m", "i18n_provider_sqlite3", "path_not_exist", &["path"], &["s"]),
    ("ProviderSqlite3Error", "SchemaInvalid", "o", "", "", &[], &["@SchemaError"]),
    ("SchemaError", "Sqlite3", "f", "", "", &[], &["f_sql"]),
    ("SchemaError", "MissingTable", "p", "i18n_provider_sqlite3", "missing_table", &["name"], &["s"]),
    ("SchemaError", "Version", "m", "i18n_provider_sqlite3", "schema_version", &["path", "version"], &["s", "s"]),
    ("SchemaError", "MissingVersion", "m", "i18n_provider_sqlite3", "schema_version_missing", &["path"], &["s"]),
    ("SchemaError", "MissingColumn", "p", "i18n_provider_sqlite3", "missing_column", &["table", "column"], &["s", "s"]),
    ("SchemaError", "ColumnProperty", "p", "i18n_provider_sqlite3", "column_property", &["table", "column", "property"], &["s", "s", "s"]),
    ("SchemaError", "ColumnDefault", "p", "i18n_provider_sqlite3", "column_default", &["table", "column", "default"], &["s", "s", "s"]),
    ("SchemaError", "ColumnMismatch", "p", "i18n_provider_sqlite3", "column_mismatch", &["table", "column"], &["s", "s"]),
    ("TreeError", "Lexer", "o", "", "", &[], &["@LexerError"]),
    ("TreeError", "EndedAbruptly", "m", "i18n_localiser", "string_ended_abruptly", &[], &[]),
    ("TreeError", "InvalidToken", "m", "i18n_localiser", "invalid_token", &["state", "position", "token"], &["S", "u", "s"]),
    ("TreeError", "UniquePattern", "m", "i18n_localiser", "unique_pattern", &["identifier"], &["s"]),
    ("TreeError", "MultiNumberSign", "m", "i18n_localiser", "multi_number_sign", &["position"], &["u"]),
    ("TreeError", "UniqueNamed", "m", "i18n_localiser", "unique_named", &["identifier"], &["s"]),
    ("CommandError", "Custom", "o", "", "", &[], &["dyn"]),
    ("CommandError", "AlreadyExists", "m", "i18n_localiser", "already_exists", &["identifier"], &["s"]),
    ("CommandError", "NotFound", "m", "i18n_localiser", "command_not_found", &["identifier"], &["s"]),
    ("CommandError", "ParameterMissing", "m", "i18n_localiser", "parameter_missing", &["identifier", "parameter"], &["s", "u"]),
    ("CommandError", "InvalidType", "m", "i18n_localiser", "invalid_type", &["identifier", "parameter"], &["s", "u"]),
    ("LocaliserError", "Registry", "o", "", "", &[], &["@RegistryError"]),
    ("LocaliserError", "Formatter", "o", "", "", &[], &["@FormatterError"]),
    ("LocaliserError", "Provider", "o", "", "", &[], &["@ProviderError"]),
    ("LocaliserError", "StringNotFound", "m", "i18n_localiser", "string_not_found", &["component", "identifier", "language_tag", "fallback"], &["s", "s", "s", "b"]),
    ("LocaliserError", "CacheEntry", "m", "i18n_localiser", "cache_entry", &["component", "identifier"], &["s", "s"]),
    ("LocaliserError", "NeverReached", "m", "i18n_localiser", "never_reach", &[], &[]),
    ("FormatterError", "Localiser", "o", "", "", &[], &["@LocaliserError"]),
    ("FormatterError", "Tree", "o", "", "", &[], &["@TreeError"]),
    ("FormatterError", "Locale", "f", "", "", &[], &["f_locale"]),
    ("FormatterError", "Calendar", "f", "", "", &[], &["f_calendar"]),
    ("FormatterError", "ParseInt", "f", "", "", &[], &["f_int"]),
    ("FormatterError", "Decimal", "f", "", "", &[], &["f_decimal"]),
    ("FormatterError", "DateTime", "f", "", "", &[], &["f_datetime"]),
    ("FormatterError", "PluralRules", "f", "", "", &[], &["f_plural"]),
    ("FormatterError", "FixedDecimal", "f", "", "", &[], &["f_fixed"]),
    ("FormatterError", "Command", "o", "", "", &[], &["@CommandError"]),
    ("FormatterError", "InvalidRoot", "m", "i18n_localiser", "invalid_root", &[], &[]),
    ("FormatterError", "NoGrammar", "m", "i18n_localiser", "no_grammar", &[], &[]),
    ("FormatterError", "RetrieveChildren", "m", "i18n_localiser", "retrieve_children", &["node_type"], &["N"]),
    ("FormatterError", "NodeNotFound", "m", "i18n_localiser", "node_not_found", &["node_type"], &["N"]),
    ("FormatterError", "FirstChild", "m", "i18n_localiser", "first_child", &["node_type"], &["N"]),
    ("FormatterError", "RetrieveNodeData", "m", "i18n_localiser", "retrieve_node_data", &["node_type"], &["N"]),
    ("FormatterError", "RetrieveNodeToken", "m", "i18n_localiser", "retrieve_node_token", &["node_type"], &["N"]),
    ("FormatterError", "LastChild", "m", "i18n_localiser", "last_child", &["node_type"], &["N"]),
    ("FormatterError", "InvalidNode", "m", "i18n_localiser", "invalid_node", &["node_type"], &["N"]),
    ("FormatterError", "PatternNamed", "m", "i18n_localiser", "pattern_named", &["identifier"], &["s"]),
    ("FormatterError", "PatternPart", "m", "i18n_localiser", "pattern_part", &["identifier", "index"], &["s", "u"]),
    ("FormatterError", "InvalidOptionValue", "m", "i18n_localiser", "invalid_option_value", &["value", "option", "keyword"], &["s", "s", "s"]),
    ("FormatterError", "InvalidKeyword", "m", "i18n_localiser", "invalid_keyword", &["keyword", "identifier"], &["s", "s"]),
    ("FormatterError", "SelectorNamed", "m", "i18n_localiser", "selector_named", &["named", "selector", "identifier"], &["s", "s", "s"]),
    ("FormatterError", "SelectorOther", "m", "i18n_localiser", "selector_other", &["keyword", "identifier"], &["s", "s"]),
    ("FormatterError", "NoChildren", "m", "i18n_localiser", "no_children", &["node_type"], &["N"]),
    ("FormatterError", "InvalidOption", "m", "i18n_localiser", "invalid_option", &["option", "keyword", "identifier"], &["s", "s", "s"]),
    ("FormatterError", "InvalidSelector", "m", "i18n_localiser", "invalid_selector", &["selector", "keyword", "identifier"], &["s", "s", "s"]),
    ("FormatterError", "NumberSignString", "m", "i18n_localiser", "number_sign_string", &["index"], &["u"]),
    ("FormatterError", "SelectorsIndex", "m", "i18n_localiser", "selectors_index", &["index"], &["u"]),
    ("FormatterError", "SelectorsIndexNamed", "m", "i18n_localiser", "selectors_index_named", &["identifier", "index"], &["s", "u"]),
    ("FormatterError", "PlaceholderValue", "m", "i18n_localiser", "placeholder_value", &["part", "placeholder"], &["s", "s"]),
    ("FormatterError", "InvalidValue", "m", "i18n_localiser", "invalid_value", &["part"], &["s"]),
    ("FormatterError", "NamedStringIdentifier", "m", "i18n_localiser", "named_string_identifier", &["identifier"], &["s"]),
    ("FormatterError", "NoIcuProvider", "m", "i18n_localiser", "no_icu_provider", &[], &[]),
    ("FormatterError", "NeverReached", "m", "i18n_localiser", "never_reach", &[], &[]),
];

type Entry = (&'static str, &'static str, &'static str, &'static str, &'static str, &'static [&'static str], &'static [&'static str]);
fn entry(c: &Value) -> Result<&'static Entry, String> {
    let (t, v) = (c[0].as_str().unwrap_or(""), c[1].as_str().unwrap_or(""));
    TABLE.iter().find(|e| e.0 == t && e.1 == v).ok_or("bad case: error".to_string())
}
fn arg(c: &Value, i: usize) -> Result<&Value, String> { c[2].get(i).ok_or("bad case: field".to_string()) }
fn s(c: &Value, i: usize) -> Result<String, String> { arg(c, i)?.as_str().map(|x| x.to_string()).ok_or("bad case: text".to_string()) }
fn n(c: &Value, i: usize) -> Result<usize, String> { arg(c, i)?.as_u64().map(|x| x as usize).ok_or("bad case: number".to_string()) }
fn flag(c: &Value, i: usize) -> Result<bool, String> { arg(c, i)?.as_bool().ok_or("bad case: flag".to_string()) }
fn into(c: &Value) -> bool { c[3].as_bool().unwrap_or(false) }
fn expect_type(c: &Value, t: &str) -> Result<(), String> { if c[0].as_str() == Some(t) { Ok(()) } else { Err("bad case: type".into()) } }

// ---- errors of other crates ----
fn f_locale(i: usize) -> icu_locid::ParserError {
    ["", "x", "en-a", "en-ZA-ZA", "en-u-"].iter().cycle().skip(i % 5).find_map(|t| t.parse::<icu_locid::LanguageIdentifier>().err()).expect("bad case: sample")
}
fn f_calendar(i: usize) -> icu_calendar::CalendarError {
    if i % 2 == 0 { icu_calendar::Date::try_new_iso_date(2020, 13, 1).unwrap_err() } else { icu_calendar::types::Time::try_new(25, 0, 0, 0).unwrap_err() }
}
fn f_int(i: usize) -> std::num::ParseIntError { ["x", "", "999"][i % 3].parse::<u8>().unwrap_err() }
fn data_error(i: usize) -> icu_provider::DataError { icu_provider::DataError::custom(["no data", "bad data"][i % 2]) }
fn f_decimal(i: usize) -> icu_decimal::DecimalError { icu_decimal::DecimalError::Data(data_error(i)) }
fn f_plural(i: usize) -> icu_plurals::PluralsError { icu_plurals::PluralsError::Data(data_error(i)) }
fn f_datetime(i: usize) -> icu_datetime::DateTimeError {
    if i % 2 == 0 { icu_datetime::DateTimeError::UnsupportedOptions } else { icu_datetime::DateTimeError::MissingInputField(None) }
}
fn f_fixed(i: usize) -> fixed_decimal::Error { if i % 2 == 0 { fixed_decimal::Error::Limit } else { fixed_decimal::Error::Syntax } }
fn f_io(i: usize) -> std::io::Error { if i % 2 == 0 { std::io::Error::other("disk") } else { std::io::ErrorKind::NotFound.into() } }
fn f_sql(i: usize) -> rusqlite::Error { if i % 2 == 0 { rusqlite::Error::InvalidQuery } else { rusqlite::Error::QueryReturnedNoRows } }
fn foreign_text(kind: &str, i: usize) -> String {
    match kind {
        "f_locale" => f_locale(i).to_string(),
        "f_calendar" => f_calendar(i).to_string(),
        "f_int" => f_int(i).to_string(),
        "f_decimal" => f_decimal(i).to_string(),
        "f_plural" => f_plural(i).to_string(),
        "f_datetime" => f_datetime(i).to_string(),
        "f_fixed" => f_fixed(i).to_string(),
        "f_io" => f_io(i).to_string(),
        _ => f_sql(i).to_string(),
    }
}

// ---- the types of nodes and the states of the parser have no public name: taken from real errors ----
fn format_error(p: &str) -> Option<FormatterError> {
    let r: Result<model::Out, String> = model::format(p, "en", &HashMap::new());
    match r { Ok(Err(LocaliserError::Formatter(e))) => Some(e), _ => None }
}
const BROKEN: &[&str] = &["}", "{a}#{}", "{#}", "{`", "{a b c#}", "#{a}#}", "{a}#{b c}}", "{{", "{a #", "{a b #}", "{a}#x", "{#join `", "{a}#{b {", "`a{"];
fn state_error(i: usize) -> Option<TreeError> {
    thread_local! { static S: Vec<TreeError> = BROKEN.iter().filter_map(|p| match format_error(p) { Some(FormatterError::Tree(e @ TreeError::InvalidToken(..))) => Some(e), _ => None }).collect(); }
    S.with(|v| if v.is_empty() { None } else { Some(v[i % v.len()].clone()) })
}
macro_rules! with_node {
    ($e:expr, $c:path) => {
        match $e { FormatterError::NodeNotFound(t) | FormatterError::InvalidNode(t) | FormatterError::NoChildren(t) => $c(t), _ => return Err("bad case: no node type".into()) }
    };
}
fn node_error() -> Option<FormatterError> {
    thread_local! { static S: Option<FormatterError> = ["{#join# a # b}", "{#join a#}", "{a select `x`}", "{a plural b}", "{`a`b}", "{a `b`}", "{}", "{#}", "{a select x#`y`}", "{a #}", "{# a}", "{a plural #}", "{#a #}", "{#`a`}"].iter().find_map(|p| match format_error(p) {
        Some(e @ (FormatterError::NodeNotFound(_) | FormatterError::InvalidNode(_) | FormatterError::NoChildren(_))) => Some(e),
        _ => None,
    }); }
    S.with(|v| v.clone())
}
fn node_text() -> Result<String, String> {
    match node_error() {
        Some(FormatterError::NodeNotFound(t) | FormatterError::InvalidNode(t) | FormatterError::NoChildren(t)) => Ok(t.to_string()),
        _ => Err("bad case: no node type".into()),
    }
}
fn state_text(i: usize) -> Result<String, String> {
    match state_error(i) { Some(TreeError::InvalidToken(st, _, _)) => Ok(st.to_string()), _ => Err("bad case: no state".into()) }
}

// ---- building the errors ----
fn custom_command(c: &Value) -> Result<CommandError, String> {
    let e = arg(c, 0)?;
    let b: Box<dyn LocalisationErrorTrait> = match e[0].as_str().unwrap_or("") {
        "TreeError" => Box::new(tree(e)?),
        "LexerError" => Box::new(lexer(e)?),
        "IcuError" => Box::new(icu(e)?),
        "RegistryError" => Box::new(registry(e)?),
        "ProviderError" => Box::new(provider(e)?),
        "CommandError" => Box::new(command(e)?),
        "LocaliserError" => Box::new(localiser(e)?),
        "FormatterError" => Box::new(formatter(e)?),
        _ => return Err("bad case: error".into()),
    };
    Ok(CommandError::Custom(Rc::new(b)))
}
fn custom_provider(c: &Value) -> Result<ProviderError, String> {
    let e = sqlite(arg(c, 0)?)?;
    if into(c) { return Ok(e.into()); }
    let b: Box<dyn ProviderErrorTrait> = Box::new(e);
    Ok(ProviderError::Custom(Rc::new(b)))
}
fn icu(c: &Value) -> Result<IcuError, String> {
    expect_type(c, "IcuError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "Grapheme" => IcuError::Grapheme,
        "Syntax" => IcuError::Syntax,
        "WhiteSpace" => IcuError::WhiteSpace,
        _ => return Err("bad case: variant".into()),
    })
}
fn lexer(c: &Value) -> Result<LexerError, String> {
    expect_type(c, "LexerError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "NoGrammar" => LexerError::NoGrammar,
        "EmptyString" => LexerError::EmptyString,
        _ => return Err("bad case: variant".into()),
    })
}
fn registry(c: &Value) -> Result<RegistryError, String> {
    expect_type(c, "RegistryError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "LanguageIdentifier" => if into(c) { f_locale(n(c, 0)?).into() } else { RegistryError::LanguageIdentifier(f_locale(n(c, 0)?)) },
        _ => return Err("bad case: variant".into()),
    })
}
fn provider(c: &Value) -> Result<ProviderError, String> {
    expect_type(c, "ProviderError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "ComponentNotFound" => ProviderError::ComponentNotFound(s(c, 0)?),
        "LanguageTagRegistry" => if into(c) { registry(arg(c, 0)?)?.into() } else { ProviderError::LanguageTagRegistry(registry(arg(c, 0)?)?) },
        "DefaultLanguage" => ProviderError::DefaultLanguage(s(c, 0)?),
        "InvalidDefaultLanguage" => ProviderError::InvalidDefaultLanguage(s(c, 0)?),
        "DefaultLanguageCount" => ProviderError::DefaultLanguageCount(s(c, 0)?, s(c, 1)?),
        "Custom" => return custom_provider(c),
        _ => return Err("bad case: variant".into()),
    })
}
fn sqlite(c: &Value) -> Result<ProviderSqlite3Error, String> {
    expect_type(c, "ProviderSqlite3Error")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "Io" => if into(c) { f_io(n(c, 0)?).into() } else { ProviderSqlite3Error::Io(Rc::new(f_io(n(c, 0)?))) },
        "Sqlite3" => if into(c) { f_sql(n(c, 0)?).into() } else { ProviderSqlite3Error::Sqlite3(Rc::new(f_sql(n(c, 0)?))) },
        "NotDirectory" => ProviderSqlite3Error::NotDirectory(PathBuf::from(s(c, 0)?)),
        "NoSqlite3Files" => ProviderSqlite3Error::NoSqlite3Files(PathBuf::from(s(c, 0)?)),
        "PathConversion" => ProviderSqlite3Error::PathConversion,
        "NotExists" => ProviderSqlite3Error::NotExists(PathBuf::from(s(c, 0)?)),
        "SchemaInvalid" => if into(c) { schema(arg(c, 0)?)?.into() } else { ProviderSqlite3Error::SchemaInvalid(schema(arg(c, 0)?)?) },
        _ => return Err("bad case: variant".into()),
    })
}
fn schema(c: &Value) -> Result<SchemaError, String> {
    expect_type(c, "SchemaError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "Sqlite3" => if into(c) { f_sql(n(c, 0)?).into() } else { SchemaError::Sqlite3(Rc::new(f_sql(n(c, 0)?))) },
        "MissingTable" => SchemaError::MissingTable(s(c, 0)?),
        "Version" => SchemaError::Version(s(c, 0)?, s(c, 1)?),
        "MissingVersion" => SchemaError::MissingVersion(s(c, 0)?),
        "MissingColumn" => SchemaError::MissingColumn(s(c, 0)?, s(c, 1)?),
        "ColumnProperty" => SchemaError::ColumnProperty(s(c, 0)?, s(c, 1)?, s(c, 2)?),
        "ColumnDefault" => SchemaError::ColumnDefault(s(c, 0)?, s(c, 1)?, s(c, 2)?),
        "ColumnMismatch" => SchemaError::ColumnMismatch(s(c, 0)?, s(c, 1)?),
        _ => return Err("bad case: variant".into()),
    })
}
fn tree(c: &Value) -> Result<TreeError, String> {
    expect_type(c, "TreeError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "Lexer" => if into(c) { lexer(arg(c, 0)?)?.into() } else { TreeError::Lexer(lexer(arg(c, 0)?)?) },
        "EndedAbruptly" => TreeError::EndedAbruptly,
        "InvalidToken" => match state_error(n(c, 0)?) { Some(TreeError::InvalidToken(st, _, _)) => TreeError::InvalidToken(st, n(c, 1)?, s(c, 2)?), _ => return Err("bad case: no state".into()) },
        "UniquePattern" => TreeError::UniquePattern(s(c, 0)?),
        "MultiNumberSign" => TreeError::MultiNumberSign(n(c, 0)?),
        "UniqueNamed" => TreeError::UniqueNamed(s(c, 0)?),
        _ => return Err("bad case: variant".into()),
    })
}
fn command(c: &Value) -> Result<CommandError, String> {
    expect_type(c, "CommandError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "Custom" => return custom_command(c),
        "AlreadyExists" => CommandError::AlreadyExists(s(c, 0)?),
        "NotFound" => CommandError::NotFound(s(c, 0)?),
        "ParameterMissing" => CommandError::ParameterMissing(s(c, 0)?, n(c, 1)?),
        "InvalidType" => CommandError::InvalidType(s(c, 0)?, n(c, 1)?),
        _ => return Err("bad case: variant".into()),
    })
}
fn localiser(c: &Value) -> Result<LocaliserError, String> {
    expect_type(c, "LocaliserError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "Registry" => if into(c) { registry(arg(c, 0)?)?.into() } else { LocaliserError::Registry(registry(arg(c, 0)?)?) },
        "Formatter" => if into(c) { formatter(arg(c, 0)?)?.into() } else { LocaliserError::Formatter(formatter(arg(c, 0)?)?) },
        "Provider" => if into(c) { provider(arg(c, 0)?)?.into() } else { LocaliserError::Provider(provider(arg(c, 0)?)?) },
        "StringNotFound" => LocaliserError::StringNotFound(s(c, 0)?, s(c, 1)?, s(c, 2)?, flag(c, 3)?),
        "CacheEntry" => LocaliserError::CacheEntry(s(c, 0)?, s(c, 1)?),
        "NeverReached" => LocaliserError::NeverReached,
        _ => return Err("bad case: variant".into()),
    })
}
fn formatter(c: &Value) -> Result<FormatterError, String> {
    expect_type(c, "FormatterError")?;
    Ok(match c[1].as_str().unwrap_or("") {
        "Localiser" => if into(c) { localiser(arg(c, 0)?)?.into() } else { FormatterError::Localiser(Box::new(localiser(arg(c, 0)?)?)) },
        "Tree" => if into(c) { tree(arg(c, 0)?)?.into() } else { FormatterError::Tree(tree(arg(c, 0)?)?) },
        "Locale" => if into(c) { f_locale(n(c, 0)?).into() } else { FormatterError::Locale(f_locale(n(c, 0)?)) },
        "Calendar" => if into(c) { f_calendar(n(c, 0)?).into() } else { FormatterError::Calendar(f_calendar(n(c, 0)?)) },
        "ParseInt" => if into(c) { f_int(n(c, 0)?).into() } else { FormatterError::ParseInt(f_int(n(c, 0)?)) },
        "Decimal" => if into(c) { f_decimal(n(c, 0)?).into() } else { FormatterError::Decimal(f_decimal(n(c, 0)?)) },
        "DateTime" => if into(c) { f_datetime(n(c, 0)?).into() } else { FormatterError::DateTime(f_datetime(n(c, 0)?)) },
        "PluralRules" => if into(c) { f_plural(n(c, 0)?).into() } else { FormatterError::PluralRules(f_plural(n(c, 0)?)) },
        "FixedDecimal" => if into(c) { f_fixed(n(c, 0)?).into() } else { FormatterError::FixedDecimal(f_fixed(n(c, 0)?)) },
        "Command" => if into(c) { command(arg(c, 0)?)?.into() } else { FormatterError::Command(command(arg(c, 0)?)?) },
        "InvalidRoot" => FormatterError::InvalidRoot,
        "NoGrammar" => FormatterError::NoGrammar,
        "RetrieveChildren" => match node_error() { Some(nt) => with_node!(nt, FormatterError::RetrieveChildren), None => return Err("bad case: no node type".into()) },
        "NodeNotFound" => match node_error() { Some(nt) => with_node!(nt, FormatterError::NodeNotFound), None => return Err("bad case: no node type".into()) },
        "FirstChild" => match node_error() { Some(nt) => with_node!(nt, FormatterError::FirstChild), None => return Err("bad case: no node type".into()) },
        "RetrieveNodeData" => match node_error() { Some(nt) => with_node!(nt, FormatterError::RetrieveNodeData), None => return Err("bad case: no node type".into()) },
        "RetrieveNodeToken" => match node_error() { Some(nt) => with_node!(nt, FormatterError::RetrieveNodeToken), None => return Err("bad case: no node type".into()) },
        "LastChild" => match node_error() { Some(nt) => with_node!(nt, FormatterError::LastChild), None => return Err("bad case: no node type".into()) },
        "InvalidNode" => match node_error() { Some(nt) => with_node!(nt, FormatterError::InvalidNode), None => return Err("bad case: no node type".into()) },
        "PatternNamed" => FormatterError::PatternNamed(s(c, 0)?),
        "PatternPart" => FormatterError::PatternPart(s(c, 0)?, n(c, 1)?),
        "InvalidOptionValue" => FormatterError::InvalidOptionValue(s(c, 0)?, s(c, 1)?, s(c, 2)?),
        "InvalidKeyword" => FormatterError::InvalidKeyword(s(c, 0)?, s(c, 1)?),
        "SelectorNamed" => FormatterError::SelectorNamed(s(c, 0)?, s(c, 1)?, s(c, 2)?),
        "SelectorOther" => FormatterError::SelectorOther(s(c, 0)?, s(c, 1)?),
        "NoChildren" => match node_error() { Some(nt) => with_node!(nt, FormatterError::NoChildren), None => return Err("bad case: no node type".into()) },
        "InvalidOption" => FormatterError::InvalidOption(s(c, 0)?, s(c, 1)?, s(c, 2)?),
        "InvalidSelector" => FormatterError::InvalidSelector(s(c, 0)?, s(c, 1)?, s(c, 2)?),
        "NumberSignString" => FormatterError::NumberSignString(n(c, 0)?),
        "SelectorsIndex" => FormatterError::SelectorsIndex(n(c, 0)?),
        "SelectorsIndexNamed" => FormatterError::SelectorsIndexNamed(s(c, 0)?, n(c, 1)?),
        "PlaceholderValue" => FormatterError::PlaceholderValue(s(c, 0)?, s(c, 1)?),
        "InvalidValue" => FormatterError::InvalidValue(s(c, 0)?),
        "NamedStringIdentifier" => FormatterError::NamedStringIdentifier(s(c, 0)?),
        "NoIcuProvider" => FormatterError::NoIcuProvider,
        "NeverReached" => FormatterError::NeverReached,
        _ => return Err("bad case: variant".into()),
    })
}
fn data(c: &Value) -> Result<LocalisationData, String> {
    Ok(match c[0].as_str().unwrap_or("") {
        "TreeError" => tree(c)?.localisation_data(),
        "LexerError" => lexer(c)?.localisation_data(),
        "IcuError" => icu(c)?.localisation_data(),
        "RegistryError" => registry(c)?.localisation_data(),
        "ProviderError" => provider(c)?.localisation_data(),
        "ProviderSqlite3Error" => sqlite(c)?.localisation_data(),
        "SchemaError" => schema(c)?.localisation_data(),
        "CommandError" => command(c)?.localisation_data(),
        "LocaliserError" => localiser(c)?.localisation_data(),
        "FormatterError" => formatter(c)?.localisation_data(),
        _ => return Err("bad case: error".into()),
    })
}

// ---- what the data has to say; `texts` collects what the localised text has to contain ----
fn text_is(d: &LocalisationData, k: &str, want: &str) -> Result<(), String> {
    match d.values.as_ref().and_then(|v| v.get(k)) {
        Some(PlaceholderValue::String(x)) if x == want => Ok(()),
        other => Err(format!("{}/{}: value {k} is {other:?}, expected the text {want:?}", d.component, d.identifier)),
    }
}
fn is(d: &LocalisationData, c: &str, i: &str) -> Result<(), String> {
    if d.component == c && d.identifier == i { Ok(()) } else { Err(format!("{}/{} instead of {c}/{i}", d.component, d.identifier)) }
}
fn judge(c: &Value, d: &LocalisationData, texts: &mut Vec<String>) -> Result<(), String> {
    let e = entry(c)?;
    if e.2 == "p" {
        is(d, e.3, e.4)?;
        return fields(c, e, d, texts);
    }
    let embedded = d.identifier == "error_format_enum_embedded";
    is(d, "i18n_localiser", if embedded { "error_format_enum_embedded" } else { "error_format_enum" })?;
    text_is(d, "type", e.0)?;
    text_is(d, "variant", e.1)?;
    texts.push(e.0.into());
    texts.push(e.1.into());
    let k = if embedded { "error" } else { "message" };
    match (e.2, d.values.as_ref().and_then(|v| v.get(k))) {
        ("f", _) => {
            let t = foreign_text(e.6[0], n(c, 0)?);
            texts.push(t.clone());
            text_is(d, k, &t)
        }
        ("o", Some(PlaceholderValue::LocalisationData(x))) => judge(arg(c, 0)?, x, texts),
        ("m", Some(PlaceholderValue::LocalisationData(x))) => {
            is(x, e.3, e.4)?;
            fields(c, e, x, texts)
        }
        (_, x) => Err(format!("{}::{}: value {k} is {x:?}, expected localisation data", e.0, e.1)),
    }
}
fn fields(c: &Value, e: &Entry, d: &LocalisationData, texts: &mut Vec<String>) -> Result<(), String> {
    for (i, k) in e.5.iter().enumerate() {
        let t = match e.6[i] {
            "s" => s(c, i)?,
            "u" => n(c, i)?.to_string(),
            "b" => flag(c, i)?.to_string(),
            "N" => node_text()?,
            _ => state_text(n(c, i)?)?,
        };
        text_is(d, k, &t)?;
        if e.6[i] != "b" { texts.push(t); }
    }
    Ok(())
}

// ---- the strings supplied with the crates ----
struct Shipped(Localiser, PathBuf);
impl Drop for Shipped { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.1); } }
fn shipped() -> Result<Shipped, String> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = fixtures::scratch().join(format!("e{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&d).map_err(|e| format!("bad case: scratch {e}"))?;
    for (p, f) in [("lexer", "i18n_lexer"), ("localiser", "i18n_localiser"), ("provider/core", "i18n_provider"), ("provider/sqlite3", "i18n_provider_sqlite3")] {
        std::fs::copy(format!("/repo/crates/{p}/l10n/{f}.sqlite3"), d.join(format!("{f}.sqlite3"))).map_err(|e| format!("supplied strings of {f}: {e}"))?;
    }
    let p = LocalisationProviderSqlite3::try_new(&d, &model::registry(), false).map_err(|e| format!("supplied strings: {e}"))?;
    let l = Localiser::try_new(&fixtures::icu(), &model::registry(), Box::new(p), &model::commands(), true, true, "en-ZA").map_err(|e| format!("localiser: {e}"))?;
    Ok(Shipped(l, d))
}
fn check(v: &Value) -> Check {
    let c = &v["error"];
    let d = data(c)?;
    let mut texts = vec![];
    judge(c, &d, &mut texts)?;
    let t = v["tag"].as_str().ok_or("bad case: tag")?;
    if !["en-ZA", "it", "en", "fr"].contains(&t) { return Err("bad case: tag".into()); }
    thread_local! { static L: Result<Shipped, String> = shipped(); }
    L.with(|l| {
        let l = l.as_ref().map_err(|e| e.clone())?;
        let r = model::out(l.0.format_localisation_data(&d, &model::tag(t), Some(true), Some(true)));
        match r {
            Err(e) => Err(format!("the localised message in {t}: {e}")),
            Ok((s, _)) => match texts.iter().find(|x| !s.contains(x.as_str())) {
                Some(x) => Err(format!("the localised message in {t} {s:?} lacks {x:?}")),
                None => Ok(()),
            },
        }
    })?;
    Ok(entry(c)?.2 == "o" || !entry(c)?.5.is_empty())
}
fn gen_error(r: &mut Rng, of: Option<&str>, depth: usize) -> Value {
    let all: Vec<&Entry> = TABLE.iter().filter(|e| of.map_or(true, |t| t == e.0) && (depth > 0 || e.2 != "o")).collect();
    if all.is_empty() { return gen_error(r, of, 1); }
    let e = *r.pick(&all);
    let a: Vec<Value> = e.6.iter().map(|k| match *k {
        "s" => json!(model::gen_text(r)),
        "u" => json!(*r.pick(&[0u64, 1, 2, 7, 12, 345, 999])),
        "b" => json!(r.chance(1, 2)),
        "dyn" if e.0 == "ProviderError" => gen_error(r, Some("ProviderSqlite3Error"), depth.saturating_sub(1)),
        "dyn" => { let t = *r.pick(&["TreeError", "LexerError", "IcuError", "ProviderError", "LocaliserError", "FormatterError", "CommandError"]); gen_error(r, Some(t), depth.saturating_sub(1)) }
        k if k.starts_with('@') => gen_error(r, Some(&k[1..]), depth.saturating_sub(1)),
        _ => json!(r.below(20)),
    }).collect();
    json!([e.0, e.1, a, r.chance(1, 2)])
}
fn gen(r: &mut Rng, i: u64) -> Value {
    let e = if (i as usize) < TABLE.len() * 2 { let t = TABLE[i as usize % TABLE.len()]; let mut c = gen_error(r, Some(t.0), 3); for _ in 0..1000 { if c[1] == t.1 { break; } c = gen_error(r, Some(t.0), 3); } c } else { gen_error(r, None, 5) };
    json!({"error": e, "tag": r.pick(&["en-ZA", "it", "en", "fr"])})
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "E01", rule: "every variant of every error type, errors nested up to 5 deep (built directly and by conversion), random field texts; localisation data compared with a table of what it has to name, then localised in four languages with the supplied strings; non-trivial: wraps another error or has fields", gen, check }]
}
