//! Reference model of pattern strings, written from the documentation: lexer, parser, validator
//! and renderer. ICU does the locale dependent formatting.
use crate::{fixtures, p_iso, p_lexer::tok_class, rng::Rng};
use fixed_decimal::{DoublePrecision, FixedDecimal, SignDisplay};
use i18n_lexer::TokenType;
use i18n_localiser::{english_a_or_an, file_path, CommandError, CommandRegistry, Localiser, LocaliserError};
use i18n_provider::{ComponentDetails, IdentifierDetails, LocalisationProviderTrait, ProviderError, RepositoryDetails};
use i18n_utility::{LanguageTag, LanguageTagRegistry, LocalisationData, PlaceholderValue, TaggedString};
use icu_calendar::{types::Time, Date, DateTime};
use icu_datetime::{options::length, DateFormatter, DateTimeFormatter, TimeFormatter};
use icu_decimal::{options::{FixedDecimalFormatterOptions, GroupingStrategy}, FixedDecimalFormatter};
use icu_locid::LanguageIdentifier;
use icu_plurals::{PluralCategory, PluralRules};
use icu_provider::DataLocale;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use crate::fixtures::Rc;

// ---------- values ----------
#[cfg(feature = "sync")]
pub fn registry() -> Rc<LanguageTagRegistry> {
    static R: std::sync::OnceLock<Rc<LanguageTagRegistry>> = std::sync::OnceLock::new();
    R.get_or_init(|| Rc::new(LanguageTagRegistry::new())).clone()
}
#[cfg(not(feature = "sync"))]
pub fn registry() -> Rc<LanguageTagRegistry> {
    thread_local! { static R: Rc<LanguageTagRegistry> = Rc::new(LanguageTagRegistry::new()); }
    R.with(|r| r.clone())
}
pub fn tag(t: &str) -> Rc<LanguageTag> { registry().tag(t).expect("bad case: tag") }
const TEXTS: &[&str] = &["", "a", "apple", "egg", "male", "female", "other", "one", "two words", "{x}", "`", "é中", "2020-02-29", "T10:20:30", "2019-12-31T23:59:59", "x#y", "_", "p", "q"];
pub fn gen_text(r: &mut Rng) -> String { if r.chance(1, 10) { any_text(r) } else { r.pick(TEXTS).to_string() } }
/// a text of any characters, now and then a long one
pub fn any_text(r: &mut Rng) -> String {
    let n = if r.chance(1, 60) { 300 + r.below(2000) } else { r.below(24) };
    let ascii = r.chance(1, 2);
    (0..n).map(|_| if ascii { r.below(128) as u8 as char } else { crate::p_lexer::any_char(r) }).collect()
}
/// an identifier of a pattern
pub fn any_ident(r: &mut Rng) -> String {
    let n = if r.chance(1, 20) { 60 + r.below(300) } else { 1 + r.below(12) };
    let s: String = (0..n).map(|_| if r.chance(1, 2) { *r.pick(&['a', 'Z', '0', '9', '_', 'é', '中', '\u{301}', '😀', '\u{0}']) } else { crate::p_lexer::any_char(r) }).filter(|c| tok_class(*c) == TokenType::Identifier).collect();
    if s.is_empty() || s == "_" { "x_".into() } else { s }
}
fn digits(r: &mut Rng, n: usize) -> String { (0..n).map(|k| (b'0' + if k == 0 && n > 1 { 1 + r.below(9) } else { r.below(10) } as u8) as char).collect() }
pub fn gen_number(r: &mut Rng) -> Value {
    const N: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 21, 22, 23, 100, 101, 1000, 12345, 1234567, 1000000];
    let n = *r.pick(N);
    if r.chance(1, 6) {
        // any magnitude
        let n = 1 + r.below(38);
        let d = digits(r, n);
        return match r.below(5) {
            0 => json!({"i": d}),
            1 => json!({"i": format!("-{d}")}),
            2 => json!({"f": if r.chance(1, 2) { format!("{}", f64::from_bits(r.next())) } else { let k = r.below(9); format!("{}{}.{}", if r.chance(1, 3) { "-" } else { "" }, &d[..d.len().min(9)], digits(r, k + 1)) }}),
            3 => { let k = r.below(20); json!({"fd": format!("{}{d}{}", if r.chance(1, 3) { "-" } else { "" }, if k == 0 { String::new() } else { format!(".{}", digits(r, k)) })}) }
            _ => json!({"u": d}),
        };
    }
    match r.below(6) {
        0 => json!({"i": (n as i64)}),
        1 => json!({"i": -(n as i64)}),
        2 => json!({"f": if r.chance(1, 30) { "NaN".to_string() } else { format!("{}", n as f64 / *r.pick(&[1.0, 2.0, 10.0, -4.0])) }}),
        3 => json!({"fd": format!("{}{}{}", if r.chance(1, 4) { "-" } else { "" }, n, r.pick(&["", ".0", ".5", ".00", ".25"]))}),
        _ => json!({"u": n}),
    }
}
fn iso_year(y: i64) -> String { if y > 9999 { format!("+{y}") } else if y < 0 { format!("-{:04}", -y) } else { format!("{y:04}") } }
pub fn gen_date(r: &mut Rng) -> Value {
    let (mut y, m, mut d) = (r.below(3000) as i64, 1 + r.below(12), 1 + r.below(28));
    if r.chance(1, 4) {
        // (the Buddhist calendar of th panics for the last 544 years of i32: KNOWN_FINDINGS)
        y = if r.chance(1, 8) { r.below(4_294_000_000) as i64 - 2_147_000_000 } else { r.below(10000) as i64 };
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        d = match m { 2 => if leap { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
    }
    let (h, mi, s) = (r.below(24), r.below(60), r.below(60));
    match r.below(7) {
        0 => json!({"d": [y, m, d]}),
        1 => json!({"tm": [h, mi, s]}),
        2 => json!({"dt": [y, m, d, h, mi, s]}),
        3 => json!({"s": format!("{}-{m:02}-{d:02}", iso_year(y))}),
        4 => json!({"s": format!("T{h:02}:{mi:02}:{s:02}")}),
        5 => json!({"s": format!("{}-{m:02}-{d:02}T{h:02}:{mi:02}", iso_year(y))}),
        _ if !(0..10000).contains(&y) => json!({"d": [y, m, d]}),
        _ => json!({"s": format!("{y:04}{m:02}{d:02}T{h:02}{mi:02}{s:02}Z")}),
    }
}
/// A text that is almost `s`.
pub fn near(r: &mut Rng, s: &str) -> String {
    match r.below(12) {
        0 => format!(" {s}"),
        1 => format!("{s} "),
        2 => s.to_uppercase(),
        3 => format!("{s}Z"),
        4 => s.chars().skip(1).collect(),
        5 => { let mut t = s.to_string(); t.pop(); t }
        6 => format!("{s}T"),
        7 => format!("{s}\n"),
        8..=10 => { let j = *r.pick(&["-", "_", " ", ".", ":", "/", ",", "#", "|", "\0"]); if r.chance(1, 3) { format!("{}{j}{s}", r.pick(&["x", "other", ""])) } else { format!("{s}{j}{}", r.pick(&["x", "other", "1"])) } }
        _ => format!("{s}{s}"),
    }
}
pub fn gen_value(r: &mut Rng) -> Value {
    match r.below(9) {
        0 | 1 => json!({"s": gen_text(r)}),
        2 => json!({"t": [gen_text(r), r.pick(&["en", "fr"])]}),
        3 => json!({"l": [gen_text(r), r.pick(&["en", "ar"])]}),
        4 | 5 => gen_number(r),
        6 | 7 => match gen_date(r) {
            Value::Object(o) if o.contains_key("s") && r.chance(1, 2) => { let t = o["s"].as_str().unwrap_or("").to_string(); json!({"s": near(r, &t)}) }
            v => v,
        },
        _ => json!({"ld": ["c", "i"]}),
    }
}
fn big(v: &Value) -> Result<i128, String> {
    if let Some(x) = v.as_i64() { return Ok(x as i128); }
    if let Some(x) = v.as_u64() { return Ok(x as i128); }
    v.as_str().and_then(|s| s.parse().ok()).ok_or("bad case: number".to_string())
}
pub fn value(v: &Value) -> Result<PlaceholderValue, String> {
    let o = v.as_object().ok_or("bad case: value")?;
    let (k, x) = o.iter().next().ok_or("bad case: value")?;
    let bad = || format!("bad case: value {v}");
    let n = |i: usize| -> Result<i64, String> { x.get(i).and_then(|y| y.as_i64()).ok_or_else(bad) };
    let st = |y: &Value| -> Result<String, String> { y.as_str().map(|s| s.to_string()).ok_or_else(bad) };
    let two = || -> Result<(String, Rc<LanguageTag>), String> {
        let a = x.get(0).and_then(|y| y.as_str()).ok_or_else(bad)?;
        let b = x.get(1).and_then(|y| y.as_str()).ok_or_else(bad)?;
        Ok((a.into(), registry().tag(b).map_err(|_| bad())?))
    };
    let date = || Date::try_new_iso_date(n(0)? as i32, n(1)? as u8, n(2)? as u8).map_err(|_| bad());
    let time = |o: usize| Time::try_new(n(o)? as u8, n(o + 1)? as u8, n(o + 2)? as u8, 0).map_err(|_| bad());
    Ok(match k.as_str() {
        "s" => PlaceholderValue::String(st(x)?),
        "i" => PlaceholderValue::Integer(big(x)?),
        "u" => PlaceholderValue::Unsigned(u128::try_from(big(x)?).map_err(|_| bad())?),
        "f" => PlaceholderValue::Float(st(x)?.parse().map_err(|_| bad())?),
        "fd" => PlaceholderValue::FixedDecimal(st(x)?.parse().map_err(|_| bad())?),
        "t" => { let (a, b) = two()?; PlaceholderValue::TaggedString(TaggedString::new(a, &b)) }
        "l" => { let (a, b) = two()?; PlaceholderValue::Localised(Rc::new(a), b) }
        "d" => PlaceholderValue::Date(date()?),
        "tm" => PlaceholderValue::Time(time(0)?),
        "dt" => PlaceholderValue::DateTime(DateTime::new(date()?, time(3)?)),
        "ld" => {
            let values = match x.get(2) {
                None | Some(Value::Null) => None,
                Some(m) => Some(values(m)?),
            };
            PlaceholderValue::LocalisationData(LocalisationData { component: st(&x[0])?, identifier: st(&x[1])?, values })
        }
        _ => return Err(bad()),
    })
}
pub fn values(v: &Value) -> Result<HashMap<String, PlaceholderValue>, String> {
    let mut m = HashMap::new();
    for (k, x) in v.as_object().ok_or("bad case: values")? { m.insert(k.clone(), value(x)?); }
    Ok(m)
}

// ---------- parser ----------
#[derive(Debug, Clone, PartialEq)]
pub enum Part {
    Text(String),
    Number,
    Pattern { ph: String, kw: Option<String>, opts: Vec<(String, String)> },
    // children: (is identifier, text); delay marker position kept by `delay`
    Command { children: Vec<(bool, String)>, delay: bool },
}
#[derive(Debug, Clone, Default)]
pub struct Parsed { pub main: Vec<Part>, pub named: Vec<(String, Vec<Part>)> }

pub fn lex(s: &str) -> Vec<(TokenType, String)> {
    let mut v: Vec<(TokenType, String)> = vec![];
    for c in s.chars() {
        let t = tok_class(c);
        match v.last_mut() {
            Some((lt, ls)) if *lt == t && t != TokenType::Grammar => ls.push(c),
            _ => v.push((t, c.to_string())),
        }
    }
    v
}
pub fn has_grammar(s: &str) -> bool { s.chars().any(|c| "{}`#".contains(c)) }
struct P { t: Vec<(TokenType, String)>, i: usize, phs: HashSet<String> }
type R<T> = Result<T, ()>;
impl P {
    fn peek(&self) -> Option<(&TokenType, &str)> { self.t.get(self.i).map(|x| (&x.0, x.1.as_str())) }
    fn g(&self, c: &str) -> bool { matches!(self.peek(), Some((TokenType::Grammar, x)) if x == c) }
    fn text(out: &mut Vec<Part>, s: &str) {
        if let Some(Part::Text(t)) = out.last_mut() { t.push_str(s) } else { out.push(Part::Text(s.into())) }
    }
    fn string(&mut self, named: bool) -> R<Vec<Part>> {
        let mut out = vec![];
        let mut any = false;
        loop {
            let Some((ty, s)) = self.peek() else { return if named { Err(()) } else { Ok(out) } };
            let (ty, s) = (*ty, s.to_string());
            if ty != TokenType::Grammar { Self::text(&mut out, &s); self.i += 1; any = true; continue; }
            match s.as_str() {
                "`" => {
                    self.i += 1;
                    let Some((_, s)) = self.peek() else { return Err(()) };
                    let s = s.to_string();
                    Self::text(&mut out, &s);
                    self.i += 1;
                }
                "{" => { self.i += 1; let p = self.pattern()?; match p { Part::Text(s) => out.push(Part::Text(s)), p => out.push(p) } }
                "#" if named => { if out.last() == Some(&Part::Number) { return Err(()) } out.push(Part::Number); self.i += 1; }
                "#" => return Ok(out),
                "}" if named => { if !any { return Err(()) } self.i += 1; return Ok(out); }
                _ => return Err(()),
            }
            any = true;
        }
    }
    fn literal(&mut self) -> R<String> {
        // after the opening backtick
        let mut o = String::new();
        loop {
            let Some((ty, s)) = self.peek() else { return Err(()) };
            let (ty, s) = (*ty, s.to_string());
            self.i += 1;
            if ty == TokenType::Grammar && s == "`" {
                if self.g("`") { o.push('`'); self.i += 1; continue; }
                return Ok(o);
            }
            o.push_str(&s);
        }
    }
    fn ws(&mut self) { while matches!(self.peek(), Some((TokenType::WhiteSpace, _))) { self.i += 1; } }
    fn ident(&mut self) -> R<String> {
        match self.peek() { Some((TokenType::Identifier, s)) => { let s = s.to_string(); self.i += 1; Ok(s) } _ => Err(()) }
    }
    fn pattern(&mut self) -> R<Part> {
        if self.g("`") {
            self.i += 1;
            let s = self.literal()?;
            if !self.g("}") { return Err(()) }
            self.i += 1;
            return Ok(Part::Text(s));
        }
        if self.g("#") {
            self.i += 1;
            let mut children: Vec<(bool, String)> = vec![];
            let mut delay = false;
            loop {
                self.ws();
                if self.g("}") { self.i += 1; return if children.is_empty() { Err(()) } else { Ok(Part::Command { children, delay }) }; }
                if self.g("#") { if children.len() == 1 && !delay { delay = true; self.i += 1; continue; } return Err(()) }
                if self.g("`") { self.i += 1; let s = self.literal()?; children.push((false, s)); continue; }
                let s = self.ident()?;
                children.push((true, s));
            }
        }
        let ph = self.ident()?;
        if !self.phs.insert(ph.clone()) { return Err(()) }
        self.ws();
        if self.g("}") { self.i += 1; return Ok(Part::Pattern { ph, kw: None, opts: vec![] }); }
        let kw = self.ident()?;
        let mut opts = vec![];
        loop {
            self.ws();
            if self.g("}") { self.i += 1; return Ok(Part::Pattern { ph, kw: Some(kw), opts }); }
            let a = self.ident()?;
            if !self.g("#") { return Err(()) }
            self.i += 1;
            let b = self.ident()?;
            opts.push((a, b));
        }
    }
    fn group(&mut self) -> R<Vec<(String, Vec<Part>)>> {
        let mut out: Vec<(String, Vec<Part>)> = vec![];
        loop {
            self.ws();
            if self.peek().is_none() { return Ok(out); }
            if !self.g("{") { return Err(()) }
            self.i += 1;
            let id = self.ident()?;
            if out.iter().any(|x| x.0 == id) { return Err(()) }
            if !matches!(self.peek(), Some((TokenType::WhiteSpace, _))) { return Err(()) }
            self.i += 1;
            let s = self.string(true)?;
            out.push((id, s));
        }
    }
}
pub fn parse(s: &str) -> R<Parsed> {
    let mut p = P { t: lex(s), i: 0, phs: HashSet::new() };
    let main = p.string(false)?;
    let mut named = vec![];
    if p.g("#") { p.i += 1; named = p.group()?; }
    Ok(Parsed { main, named })
}

// ---------- validator ----------
const PLURALS: &[&str] = &["zero", "one", "two", "few", "many", "other"];
pub fn last_wins(opts: &[(String, String)]) -> BTreeMap<String, String> { opts.iter().cloned().collect() }
/// None: not specified here (calendar option)
pub fn valid(p: &Parsed) -> Option<bool> {
    let mut known: HashSet<&str> = HashSet::new();
    let mut unspecified = false;
    let mut ok = true;
    let mut part = |x: &Part, known: &HashSet<&str>| match x {
        Part::Text(_) | Part::Number => {}
        Part::Command { children, .. } => if !children[0].0 { ok = false },
        Part::Pattern { kw: None, .. } => {}
        Part::Pattern { kw: Some(kw), opts, .. } => {
            let m = last_wins(opts);
            match kw.as_str() {
                "decimal" => for (k, v) in &m {
                    ok &= match k.as_str() {
                        "sign" => ["auto", "never", "always", "except_zero", "negative"].contains(&v.as_str()),
                        "group" => ["auto", "never", "always", "min2"].contains(&v.as_str()),
                        _ => false,
                    }
                },
                "date_time" => for (k, v) in &m {
                    ok &= match k.as_str() {
                        "date" | "time" => ["full", "long", "medium", "short"].contains(&v.as_str()),
                        "calendar" => {
                            if ["gregorian", "buddhist", "japanese", "ethiopian", "indian", "coptic", "iso"].contains(&v.as_str()) { unspecified = true; true } else { false }
                        }
                        _ => false,
                    }
                },
                "plural" | "ordinal" => {
                    for (k, v) in &m { ok &= PLURALS.contains(&k.as_str()) && known.contains(v.as_str()); }
                    ok &= m.contains_key("other");
                }
                "select" => for v in m.values() { ok &= known.contains(v.as_str()); },
                _ => ok = false,
            }
        }
    };
    let mut underscore = false;
    for (id, s) in &p.named {
        underscore |= id == "_";
        for x in s { part(x, &known); }
        known.insert(id);
    }
    for x in &p.main { part(x, &known); }
    if underscore || !ok { Some(false) } else if unspecified { None } else { Some(true) }
}

// ---------- renderer ----------
pub enum Bad { Error, Unspecified }
pub struct Render<'a> { pub p: &'a Parsed, pub locale: DataLocale, pub values: &'a HashMap<String, PlaceholderValue> }
type RR = Result<String, Bad>;
fn icu<T, E>(r: Result<T, E>) -> Result<T, Bad> { r.map_err(|_| Bad::Error) }
pub fn data_locale(tag: &str) -> DataLocale { DataLocale::from(&tag.parse::<LanguageIdentifier>().expect("bad case: tag")) }
pub fn fmt_decimal(l: &DataLocale, d: &FixedDecimal, g: Option<GroupingStrategy>) -> RR {
    let mut o = FixedDecimalFormatterOptions::default();
    if let Some(g) = g { o.grouping_strategy = g; }
    Ok(icu(FixedDecimalFormatter::try_new(l, o))?.format(d).to_string())
}
pub fn fmt_date(l: &DataLocale, d: &Date<icu_calendar::Iso>, len: length::Date) -> RR {
    icu(icu(DateFormatter::try_new_with_length(l, len))?.format_to_string(&d.to_any()))
}
pub fn fmt_time(l: &DataLocale, t: &Time, len: length::Time) -> RR {
    Ok(icu(TimeFormatter::try_new_with_length(l, len))?.format_to_string(t))
}
pub fn fmt_date_time(l: &DataLocale, d: &DateTime<icu_calendar::Iso>, ld: length::Date, lt: length::Time) -> RR {
    icu(icu(DateTimeFormatter::try_new(l, length::Bag::from_date_time_style(ld, lt).into()))?.format_to_string(&d.to_any()))
}
fn number(v: &PlaceholderValue) -> Result<FixedDecimal, Bad> {
    Ok(match v {
        PlaceholderValue::FixedDecimal(d) => d.clone(),
        PlaceholderValue::Unsigned(n) => FixedDecimal::from(*n),
        PlaceholderValue::Integer(n) => FixedDecimal::from(*n),
        PlaceholderValue::Float(n) => icu(FixedDecimal::try_from_f64(*n, DoublePrecision::Floating))?,
        _ => return Err(Bad::Error),
    })
}
fn text(v: &PlaceholderValue) -> RR {
    Ok(match v {
        PlaceholderValue::String(s) => s.clone(),
        PlaceholderValue::TaggedString(s) => s.as_str().to_string(),
        PlaceholderValue::Localised(s, _) => s.to_string(),
        _ => return Err(Bad::Error),
    })
}
impl Render<'_> {
    pub fn main(&self) -> RR { self.string(&self.p.main, None) }
    fn string(&self, parts: &[Part], num: Option<&str>) -> RR {
        let mut o = String::new();
        for x in parts { o.push_str(&self.part(x, num)?); }
        Ok(o)
    }
    fn named(&self, id: &str, num: Option<&str>) -> RR {
        let s = self.p.named.iter().find(|x| x.0 == id).ok_or(Bad::Error)?;
        self.string(&s.1, num)
    }
    fn part(&self, x: &Part, num: Option<&str>) -> RR {
        match x {
            Part::Text(s) => Ok(s.clone()),
            Part::Number => num.map(|s| s.to_string()).ok_or(Bad::Unspecified),
            Part::Command { children, delay } => {
                let mut ps = vec![PlaceholderValue::String(children[0].1.clone())];
                for (_, c) in &children[1..] {
                    ps.push(match self.values.get(c) { Some(v) if *delay => v.clone(), _ => PlaceholderValue::String(c.clone()) });
                }
                let (_, f) = COMMANDS.iter().find(|f| f.0 == children[0].1).ok_or(Bad::Error)?;
                f(ps).map_err(|_| Bad::Error)
            }
            Part::Pattern { ph, kw, opts } => {
                let v = self.values.get(ph).ok_or(Bad::Error)?;
                let m = last_wins(opts);
                match kw.as_deref() {
                    None => text(v),
                    Some("decimal") => {
                        let mut d = number(v)?;
                        if let Some(s) = m.get("sign") {
                            d.apply_sign_display(match s.as_str() { "auto" => SignDisplay::Auto, "never" => SignDisplay::Never, "always" => SignDisplay::Always, "except_zero" => SignDisplay::ExceptZero, _ => SignDisplay::Negative });
                        }
                        let g = m.get("group").map(|s| match s.as_str() { "auto" => GroupingStrategy::Auto, "never" => GroupingStrategy::Never, "always" => GroupingStrategy::Always, _ => GroupingStrategy::Min2 });
                        fmt_decimal(&self.locale, &d, g)
                    }
                    Some("date_time") => {
                        let ld = match m.get("date").map(|s| s.as_str()) { Some("full") => length::Date::Full, Some("long") => length::Date::Long, Some("short") => length::Date::Short, _ => length::Date::Medium };
                        let lt = match m.get("time").map(|s| s.as_str()) { Some("full") => length::Time::Full, Some("long") => length::Time::Long, Some("short") => length::Time::Short, _ => length::Time::Medium };
                        match v {
                            PlaceholderValue::Date(d) => fmt_date(&self.locale, d, ld),
                            PlaceholderValue::Time(t) => fmt_time(&self.locale, t, lt),
                            PlaceholderValue::DateTime(t) => fmt_date_time(&self.locale, t, ld, lt),
                            PlaceholderValue::String(s) => match s.split_once('T') {
                                Some(("", t)) => fmt_time(&self.locale, &p_iso::time(t)?, lt),
                                Some((d, t)) => fmt_date_time(&self.locale, &DateTime::new(p_iso::date(d)?, p_iso::time(t)?), ld, lt),
                                None => fmt_date(&self.locale, &p_iso::date(s)?, ld),
                            },
                            _ => Err(Bad::Error),
                        }
                    }
                    Some(k @ ("plural" | "ordinal")) => {
                        if k == "ordinal" && !matches!(v, PlaceholderValue::Unsigned(_)) { return Err(Bad::Error); }
                        let d = number(v)?;
                        let r = icu(if k == "plural" { PluralRules::try_new_cardinal(&self.locale) } else { PluralRules::try_new_ordinal(&self.locale) })?;
                        let c = match r.category_for(&d) { PluralCategory::Zero => "zero", PluralCategory::One => "one", PluralCategory::Two => "two", PluralCategory::Few => "few", PluralCategory::Many => "many", PluralCategory::Other => "other" };
                        let id = m.get(c).or(m.get("other")).ok_or(Bad::Error)?;
                        let n = fmt_decimal(&self.locale, &d, None)?;
                        self.named(id, Some(&n))
                    }
                    Some(_) => {
                        let s = text(v)?;
                        let id = m.get(&s).or(m.get("other")).ok_or(Bad::Error)?;
                        self.named(id, None)
                    }
                }
            }
        }
    }
}
// ---------- commands ----------
type F = fn(Vec<PlaceholderValue>) -> Result<String, CommandError>;
pub fn show(v: &PlaceholderValue) -> String {
    match v {
        PlaceholderValue::String(s) => format!("S({s})"),
        PlaceholderValue::TaggedString(s) => format!("T({})", s.as_str()),
        PlaceholderValue::Localised(s, t) => format!("L({s}:{})", t.as_str()),
        PlaceholderValue::LocalisationData(d) => format!("D({}/{})", d.component, d.identifier),
        PlaceholderValue::Integer(n) => format!("I({n})"),
        PlaceholderValue::Unsigned(n) => format!("U({n})"),
        PlaceholderValue::Float(n) => format!("F({n})"),
        PlaceholderValue::FixedDecimal(n) => format!("N({n})"),
        x => format!("X({x:?})"),
    }
}
fn join(p: Vec<PlaceholderValue>) -> Result<String, CommandError> { Ok(format!("[{}]", p.iter().map(show).collect::<Vec<_>>().join("|"))) }
fn fail(_: Vec<PlaceholderValue>) -> Result<String, CommandError> { Err(CommandError::Custom(Rc::new(Box::new(Fail)))) }
fn fussy(p: Vec<PlaceholderValue>) -> Result<String, CommandError> { if p.len() > 2 { Err(CommandError::ParameterMissing("fussy".into(), 9)) } else { Ok("fussy".into()) } }
#[derive(Debug)]
struct Fail;
impl std::fmt::Display for Fail { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "fail") } }
impl std::error::Error for Fail {}
impl i18n_utility::LocalisationTrait for Fail { fn localisation_data(&self) -> LocalisationData { LocalisationData { component: "x".into(), identifier: "x".into(), values: None } } }
impl i18n_utility::LocalisationErrorTrait for Fail {}
pub const COMMANDS: &[(&str, F)] = &[("join", join), ("fail", fail), ("fussy", fussy), ("file_path", file_path), ("english_a_or_an", english_a_or_an)];

// ---------- mock repository ----------
#[derive(Default)]
pub struct Repo {
    pub strings: HashMap<(String, String, String), (String, String)>, // (component, identifier, requested tag) -> (string, its tag)
    pub default: HashMap<String, String>,
    pub calls: Vec<String>,
    pub faults: HashSet<String>, // calls that fail
}
#[derive(Clone, Default)]
pub struct Mock(pub Rc<crate::fixtures::Shared<Repo>>, #[cfg(feature = "sync")] pub Rc<crate::p_sync::Gate>);
impl LocalisationProviderTrait for Mock {
    fn string(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        let mut r = self.0.borrow_mut();
        let call = format!("string {c}|{i}|{}", t.as_str());
        r.calls.push(call.clone());
        if r.faults.contains(&call) { return Err(ProviderError::InvalidDefaultLanguage(call)); }
        let found = r.strings.get(&(c.into(), i.into(), t.as_str().into())).map(|(s, t)| (s.clone(), tag(t)));
        drop(r);
        #[cfg(feature = "sync")]
        self.1.pass();
        Ok(found)
    }
    fn string_exact_match(&self, _: &str, _: &str, _: &Rc<LanguageTag>) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        self.0.borrow_mut().calls.push("exact".into());
        Err(ProviderError::DefaultLanguage("unexpected".into()))
    }
    fn strings(&self, _: &str, _: &str, _: &Rc<LanguageTag>) -> Result<Vec<(String, Rc<LanguageTag>)>, ProviderError> {
        self.0.borrow_mut().calls.push("strings".into());
        Err(ProviderError::DefaultLanguage("unexpected".into()))
    }
    fn identifier_details(&self, _: &str, _: &str) -> Result<IdentifierDetails, ProviderError> {
        self.0.borrow_mut().calls.push("identifier_details".into());
        Err(ProviderError::DefaultLanguage("unexpected".into()))
    }
    fn component_details(&self, c: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        let mut r = self.0.borrow_mut();
        let call = format!("details {c}");
        r.calls.push(call.clone());
        if r.faults.contains(&call) { return Err(ProviderError::InvalidDefaultLanguage(call)); }
        match r.default.get(c) {
            None => Err(ProviderError::ComponentNotFound(c.into())),
            Some(t) => Ok(Rc::new(ComponentDetails { languages: HashMap::new(), default: tag(t), total_strings: 0 })),
        }
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        self.0.borrow_mut().calls.push("repository_details".into());
        Err(ProviderError::DefaultLanguage("unexpected".into()))
    }
}
pub fn commands() -> Rc<CommandRegistry> {
    let r = CommandRegistry::new();
    for (n, f) in COMMANDS { r.insert(*n, *f).unwrap(); }
    Rc::new(r)
}
pub fn localiser(m: &Mock, fallback: bool, caching: bool, lang: &str) -> Result<Localiser, String> {
    Localiser::try_new(&fixtures::icu(), &registry(), Box::new(m.clone()), &commands(), fallback, caching, lang).map_err(|e| format!("localiser: {e}"))
}
pub type Out = Result<(String, String), LocaliserError>;
pub fn out(r: Result<(Rc<String>, Rc<LanguageTag>), LocaliserError>) -> Out { r.map(|(s, t)| (s.to_string(), t.as_str().to_string())) }
/// formats one pattern string with a localiser shared by the thread (no caching)
pub fn format(pattern: &str, lang: &str, v: &HashMap<String, PlaceholderValue>) -> Result<Out, String> {
    thread_local! { static L: RefCell<Option<(Mock, Localiser)>> = const { RefCell::new(None) }; }
    L.with(|l| {
        // taken out while in use: after a panic a new one is made
        let (m, loc) = match l.borrow_mut().take() { Some(x) => x, None => { let m = Mock::default(); let loc = localiser(&m, false, false, "en")?; (m, loc) } };
        {
            let mut r = m.0.borrow_mut();
            r.calls.clear();
            r.strings.clear();
            r.strings.insert(("c".into(), "i".into(), lang.into()), (pattern.into(), lang.into()));
        }
        let o = out(loc.format("c", "i", v, &tag(lang), Some(false), Some(false)));
        *l.borrow_mut() = Some((m, loc));
        Ok(o)
    })
}
