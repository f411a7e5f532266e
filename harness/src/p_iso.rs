//! D01, D02: ISO texts through date_time patterns
use crate::{model::{self, Bad}, rng::Rng, Check, Prop};
use i18n_utility::PlaceholderValue;
use icu_calendar::{types::Time, Date, Iso};
use icu_datetime::options::length;
use serde_json::{json, Value};
use std::collections::HashMap;

fn digits(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) }
/// documented forms only; Unspecified for everything else that is not an error for sure
pub fn date(s: &str) -> Result<Date<Iso>, Bad> {
    let (sign, body) = match s.as_bytes().first() { Some(b'-') => (-1, &s[1..]), Some(b'+') => (1, &s[1..]), _ => (0, s) };
    let parts: Vec<&str> = body.split('-').collect();
    if s.is_empty() || s.starts_with("+-") || body.starts_with('+') { return Err(Bad::Unspecified); }
    if parts.len() == 1 && sign == 0 && !s.is_ascii() { return Err(Bad::Unspecified); }
    if parts.iter().any(|p| p.starts_with('+')) { return Err(Bad::Unspecified); }
    if parts.iter().any(|p| !digits(p)) {
        // a field that is not a number: an error, unless it lies beyond the fields that are read
        return if parts.len() <= 3 && (parts.len() > 1 || parts[0].len() <= 8 && parts[0].len() != 5 && parts[0].len() != 7 || sign != 0) { Err(Bad::Error) } else { Err(Bad::Unspecified) };
    }
    let (y, m, d) = match (sign, parts.as_slice()) {
        (0, [a]) if a.len() == 4 => (a.to_string(), "1", "1"),
        (0, [a]) if a.len() == 8 => (a[..4].to_string(), &a[4..6], &a[6..]),
        (0, [a, b]) if a.len() == 4 => (a.to_string(), *b, "1"),
        (0, [a, b, c]) if a.len() == 4 => (a.to_string(), *b, *c),
        (-1, [a, ..]) if a.len() < 4 => return Err(Bad::Unspecified),
        (1, [a, ..]) if a.len() < 5 => return Err(Bad::Unspecified),
        (-1 | 1, [a]) => (a.to_string(), "1", "1"),
        (-1 | 1, [a, b]) => (a.to_string(), *b, "1"),
        (-1 | 1, [a, b, c]) => (a.to_string(), *b, *c),
        _ => return Err(Bad::Unspecified),
    };
    let y: i64 = y.parse().map_err(|_| Bad::Error)?;
    let y = i32::try_from(if sign < 0 { -y } else { y }).map_err(|_| Bad::Error)?;
    let m: u8 = m.parse().map_err(|_| Bad::Error)?;
    let d: u8 = d.parse().map_err(|_| Bad::Error)?;
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap { 29 } else { 28 }, _ => 0 };
    if d < 1 || d > dim { return Err(Bad::Error); }
    Date::try_new_iso_date(y, m, d).map_err(|_| Bad::Error)
}
pub fn time(s: &str) -> Result<Time, Bad> {
    let s = s.strip_prefix('T').unwrap_or(s);
    let end = s.find(['+', '-', 'Z']).unwrap_or(s.len());
    let (body, suf) = (&s[..end], &s[end..]);
    let suf_ok = suf.is_empty() || suf == "Z" || { let x: String = suf[1..].chars().filter(|c| *c != ':').collect(); digits(&x) && (x.len() == 4 || x.len() == 2) && !suf.starts_with('Z') };
    if !suf_ok || body.is_empty() { return Err(Bad::Unspecified); }
    let (main, nano) = match body.split_once('.') { Some((a, b)) => (a, Some(b)), None => (body, None) };
    let ext: Vec<&str> = if main.contains(':') { main.split(':').collect() } else {
        if !main.is_ascii() || main.len() % 2 != 0 { return Err(Bad::Unspecified); }
        (0..main.len() / 2).map(|i| &main[2 * i..2 * i + 2]).collect()
    };
    if ext.is_empty() || ext.len() > 3 || ext.iter().any(|f| f.len() != 2 || f.contains('+')) || (nano.is_some() && ext.len() != 3) { return Err(Bad::Unspecified); }
    if ext.iter().any(|f| !digits(f)) { return Err(Bad::Error); }
    let f = |i: usize| ext.get(i).map(|x| x.parse::<u8>().unwrap()).unwrap_or(0);
    let (h, m, sec) = (f(0), f(1), f(2));
    if m == 60 || sec == 61 { return Err(Bad::Unspecified); }
    if h > 24 || m > 59 || sec > 60 { return Err(Bad::Error); }
    let n: u32 = match nano {
        None => 0,
        Some(x) if x.is_empty() || x.starts_with(['.', '+']) => return Err(Bad::Unspecified),
        Some(x) if !digits(x) => return Err(Bad::Error),
        Some(x) => x.parse().map_err(|_| Bad::Error)?,
    };
    Time::try_new(h, m, sec, n).map_err(|_| Bad::Error)
}
fn corrupt(r: &mut Rng, s: String) -> String {
    if !r.chance(1, 8) || s.is_empty() { return s; }
    let mut c: Vec<char> = s.chars().collect();
    let k = r.below(c.len());
    match r.below(3) { 0 => c[k] = *r.pick(&['x', ' ', 'é', '/', 'O']), 1 => { c.remove(k); } _ => c.insert(k, *r.pick(&['1', '-', ':', '.', 'Z', 'a', '中', '+'])) }
    c.into_iter().collect()
}
fn field(r: &mut Rng, good: usize, base: usize) -> usize { if r.chance(9, 10) { base + r.below(good) } else { r.below(100) } }
fn gen_date(r: &mut Rng) -> String {
    let y = *r.pick(&[0usize, 1, 4, 400, 1582, 1600, 1900, 1999, 2000, 2020, 2021, 2023, 2024, 9999]);
    let y = if r.chance(1, 2) { y } else { r.below(10000) };
    let (m, d) = (field(r, 12, 1), field(r, 31, 1));
    let s = match if r.chance(1, 12) { 10 } else { r.below(10) } {
        10 => { let y = r.next() as u64 >> (30 + r.below(34)); match r.below(4) { 0 => format!("+{y:05}"), 1 => format!("+{y:05}-{m:02}-{d:02}"), 2 => format!("-{y:05}-{m:02}-{d:02}"), _ => format!("-{y:04}-{m:02}") } }
        0 => format!("{y:04}"),
        1 => format!("{y:04}{m:02}{d:02}"),
        2 => format!("{y:04}-{m:02}"),
        3 | 4 => format!("{y:04}-{m:02}-{d:02}"),
        5 => format!("-{y:04}-{m:02}-{d:02}"),
        6 => format!("+{:05}", y + 9990),
        7 => format!("+{:05}-{m:02}", y * 3),
        8 => format!("+{:05}-{m:02}-{d:02}", y + 9000),
        _ => match r.below(3) { 0 => format!("-{y:04}-{m:02}"), 1 => format!("-{:05}-{m:02}-{d:02}", y + 10000), _ => format!("-{y:04}") },
    };
    corrupt(r, s)
}
fn gen_time(r: &mut Rng) -> String {
    let (h, m, s, n) = (field(r, 25, 0), field(r, 60, 0), field(r, 60, 0), *r.pick(&[0u64, 1, 7, 500, 999, 123456, 999_999_999, 1_000_000_000, 99_999_999_999]));
    let b = match r.below(8) {
        0 => format!("{h:02}"),
        1 => format!("{h:02}{m:02}"),
        2 => format!("{h:02}:{m:02}"),
        3 => format!("{h:02}{m:02}{s:02}"),
        4 | 5 => format!("{h:02}:{m:02}:{s:02}"),
        6 => format!("{h:02}{m:02}{s:02}.{n}"),
        _ => format!("{h:02}:{m:02}:{s:02}.{n:03}"),
    };
    let suf = *r.pick(&["", "", "Z", "+02:00", "-0530", "+01", "-11:30"]);
    corrupt(r, format!("{b}{suf}"))
}
fn gen_d01(r: &mut Rng, _: u64) -> Value { json!({"text": gen_date(r)}) }
fn gen_d02(r: &mut Rng, _: u64) -> Value { let p = if r.chance(1, 4) { "2020-02-29" } else { "" }; json!({"text": format!("{p}T{}", gen_time(r))}) }
fn run(text: &str, lang: &str) -> Result<Result<String, String>, String> {
    let v: HashMap<String, PlaceholderValue> = [("p".to_string(), PlaceholderValue::String(text.into()))].into();
    Ok(model::format("{p date_time date#full time#medium}", lang, &v)?.map(|x| x.0).map_err(|e| e.to_string()))
}
fn compare(text: &str, lang: &str, want: Result<String, Bad>) -> Check {
    let got = run(text, lang)?;
    match (want, got) {
        (Err(Bad::Unspecified), _) => Ok(false),
        (Ok(a), Ok(b)) => if a == b { Ok(true) } else { Err(format!("{text:?} in {lang} gives {b:?}, expected {a:?}")) },
        (Err(Bad::Error), Err(_)) => Ok(true),
        (Ok(a), Err(e)) => Err(format!("{text:?} is rejected ({e}), expected {a:?}")),
        (Err(Bad::Error), Ok(b)) => Err(format!("{text:?} is accepted as {b:?} but must be rejected")),
    }
}
fn check_d01(v: &Value) -> Check {
    let t = v["text"].as_str().ok_or("bad case: text")?;
    if t.contains('T') { return Ok(false); }
    let mut nt = false;
    // th: Buddhist calendar, the year sign is visible
    for lang in ["en", "th"] {
        // the Buddhist calendar panics for the last 544 years of i32: KNOWN_FINDINGS
        if lang == "th" && date(t).is_ok_and(|d| d.year().number.unsigned_abs() > 2_147_483_000) { continue; }
        let want = date(t).and_then(|d| model::fmt_date(&model::data_locale(lang), &d, length::Date::Full));
        nt |= compare(t, lang, want)?;
    }
    Ok(nt)
}
fn check_d02(v: &Value) -> Check {
    let t = v["text"].as_str().ok_or("bad case: text")?;
    let Some((d, rest)) = t.split_once('T') else { return Err("bad case: no T".into()) };
    if rest.contains('T') { return Ok(false); }
    let l = model::data_locale("en-ZA"); // 24 h clock
    let want = time(rest).and_then(|x| if d.is_empty() { model::fmt_time(&l, &x, length::Time::Medium) } else {
        model::fmt_date_time(&l, &icu_calendar::DateTime::new(date(d)?, x), length::Date::Full, length::Time::Medium)
    });
    compare(t, "en-ZA", want)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "D01", rule: "dates in all documented ISO forms with fields in and out of range, one in eight with a changed, removed or added character, formatted in en and th and compared with ICU's formatting of the date; non-trivial: a documented form or a certain error", gen: gen_d01, check: check_d01 },
        Prop { id: "D02", rule: "times in all documented ISO forms, with zone suffixes, after a date or alone, one in eight corrupted; non-trivial: a documented form or a certain error", gen: gen_d02, check: check_d02 },
    ]
}
