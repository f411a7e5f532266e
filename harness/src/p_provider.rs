//! P01-P05: sqlite3 repositories built in a scratch directory
use crate::{fixtures, model, rng::Rng, Check, Prop};
use i18n_provider::{LocalisationProviderTrait, ProviderError};
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use rusqlite::Connection;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);
pub struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = fixtures::scratch().join(format!("d{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("bad case: scratch");
        Dir(d)
    }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// (table, [(column, declaration)])
const SCHEMA: &[(&str, &[(&str, &str)])] = &[
    ("component", &[("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"), ("identifier", "TEXT NOT NULL"), ("languageTag", "TEXT NOT NULL"), ("comment", "TEXT"), ("added", "DATE NOT NULL")]),
    ("contributor", &[("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"), ("component", "TEXT NOT NULL"), ("languageTag", "TEXT NOT NULL"), ("contributor", "TEXT NOT NULL"), ("substituteFor", "TEXT"), ("comment", "TEXT"), ("verified", "DATE")]),
    ("language", &[("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"), ("tag", "TEXT NOT NULL"), ("englishName", "TEXT"), ("added", "DATE NOT NULL")]),
    ("languageData", &[("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"), ("component", "TEXT NOT NULL"), ("languageTag", "TEXT NOT NULL"), ("count", "INTEGER NOT NULL"), ("ratio", "REAL NOT NULL")]),
    ("metadata", &[("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"), ("component", "TEXT NOT NULL"), ("key", "TEXT NOT NULL"), ("value", "TEXT NOT NULL"), ("comment", "TEXT"), ("verified", "DATE")]),
    ("pattern", &[("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"), ("component", "TEXT NOT NULL"), ("identifier", "TEXT NOT NULL"), ("languageTag", "TEXT NOT NULL"), ("string", "TEXT NOT NULL"), ("comment", "TEXT"), ("verified", "DATE")]),
];
fn create_sql(skip: Option<&str>, edit: &dyn Fn(&str, &mut Vec<(String, String)>)) -> String {
    let mut s = String::new();
    for (t, cols) in SCHEMA {
        if Some(*t) == skip { continue; }
        let mut c: Vec<(String, String)> = cols.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
        edit(t, &mut c);
        s.push_str(&format!("CREATE TABLE {t} ({});", c.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>().join(", ")));
    }
    s
}
fn open(p: &Path) -> Connection {
    let c = Connection::open(p).expect("bad case: scratch db");
    c.execute_batch("PRAGMA journal_mode=OFF; PRAGMA synchronous=OFF; BEGIN;").expect("bad case: scratch db");
    c
}
fn st(v: &Value) -> Result<&str, String> { v.as_str().ok_or("bad case: string".into()) }
/// file: {"name", "components": [[id, default]], "contributors": [[comp, tag, who]], "patterns": [[comp, id, tag, string]]}
fn write_file(dir: &Path, f: &Value) -> Result<(), String> {
    let name = st(&f["name"])?;
    if name.is_empty() || name.len() > 200 || name.contains(['/', '\0']) { return Err("bad case: name".into()); }
    let c = open(&dir.join(format!("{name}.sqlite3")));
    c.execute_batch(&create_sql(None, &|_, _| {})).map_err(|e| format!("bad case: {e}"))?;
    let ex = |s: &str, p: &[&str]| -> Result<(), String> { c.execute(s, rusqlite::params_from_iter(p)).map(|_| ()).map_err(|e| format!("bad case: {e}")) };
    ex("INSERT INTO metadata (component, key, value) VALUES (?1, 'schema_version', '1.0')", &[name])?;
    let mut seen = BTreeSet::new();
    for x in f["components"].as_array().ok_or("bad case")? {
        if !seen.insert(st(&x[0])?.to_string()) { return Err("bad case: duplicate".into()); }
        if !RTAGS.contains(&st(&x[1])?) { return Err("bad case: tag".into()); }
        ex("INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", &[st(&x[0])?, st(&x[1])?])?;
    }
    let mut seen = BTreeSet::new();
    for x in f["contributors"].as_array().ok_or("bad case")? {
        if !seen.insert(x.to_string()) { return Err("bad case: duplicate".into()); }
        if !RTAGS.contains(&st(&x[1])?) { return Err("bad case: tag".into()); }
        ex("INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)", &[st(&x[0])?, st(&x[1])?, st(&x[2])?])?;
    }
    let mut seen = BTreeSet::new();
    for x in f["patterns"].as_array().ok_or("bad case")? {
        if !RTAGS.contains(&st(&x[2])?) { return Err("bad case: tag".into()); }
        if !seen.insert((st(&x[0])?.to_string(), st(&x[1])?.to_string(), st(&x[2])?.to_string())) { return Err("bad case: duplicate".into()); }
        ex("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", &[st(&x[0])?, st(&x[1])?, st(&x[2])?, st(&x[3])?])?;
    }
    c.execute_batch("COMMIT;").map_err(|e| format!("bad case: {e}"))
}
pub const COMPS: &[&str] = &["application", "lib", "li"];
pub struct Names { pub comps: Vec<String>, ids: Vec<String>, who: Vec<String>, pub tags: Vec<&'static str> }
pub fn few() -> Names { Names { comps: COMPS.iter().map(|x| x.to_string()).collect(), ids: IDS.iter().map(|x| x.to_string()).collect(), who: ["Ann", "Bob", "Cy"].iter().map(|x| x.to_string()).collect(), tags: RTAGS[..15].to_vec() } }
/// now and then more names, and such that a query written as a text would misread
fn names(r: &mut Rng) -> Names {
    let mut n = few();
    if !r.chance(1, 12) { return n; }
    const ODD: &[&str] = &["__all_in_one__x", "__all_in_one__.a", "__all_in_one", "__ALL_IN_ONE__", "it's", "a%b", "a_b", "aXb", "a\"b", "lib.x", "LIB", "Lib", "é", "中", "a b", " lib", "lib ", "--", "x?mode=ro", "x#y", ":memory:", "a;b", "%", "_", "lib%", "on_", "o%", "ONE", "one ", "[a]", "NULL", "0", "1.0", "lib.sqlite3", ".lib", "component", "\u{301}", "😀", "*", "a\\b", "a\nb"];
    let add = |r: &mut Rng, v: &mut Vec<String>, k: usize| for _ in 0..k {
        let x = if r.chance(1, 4) { (0..1 + r.below(20)).map(|_| crate::p_lexer::any_char(r)).filter(|c| !['/', '\0', '&'].contains(c)).collect() } else { r.pick(ODD).to_string() };
        if !x.is_empty() && !v.contains(&x) { v.push(x); }
    };
    let (a, b, c) = (1 + r.below(6), 1 + r.below(12), 1 + r.below(5));
    add(r, &mut n.comps, a);
    add(r, &mut n.ids, b);
    if r.chance(1, 3) { for k in 0..r.below(25) { n.ids.push(format!("id{k}")); } }
    if r.chance(1, 10) { for k in 0..300 { n.ids.push(format!("id{k}x")); } n.tags.truncate(15); return n; }
    if r.chance(1, 12) { for k in 0..150 { n.who.push(format!("Person {k}")); } }
    if r.chance(1, 6) { n.ids.push("long".repeat(100)); }
    add(r, &mut n.who, c);
    n.tags = RTAGS.to_vec();
    // few components when there are many identifiers
    if n.ids.len() > 12 || n.who.len() > 20 { n.comps.truncate(2); }
    n
}
const TAGS: &[&str] = &["en", "en-ZA", "en-GB", "enm", "fr", "fr-CA", "zh-Hans", "zh-Hans-CN", "zh", "e", "sr-Latn-RS", "sr-Latn", "de-1996", "de-CH-1996", "ca-valencia", "sl-biske-rozaj", "sl-biske", "en-001", "zh-Hant-TW", "und"];
pub const RTAGS: &[&str] = &["en", "en-ZA", "en-GB", "enm", "fr", "fr-CA", "zh-Hans", "zh-Hans-CN", "zh", "sr-Latn-RS", "sr-Latn", "sr", "zh-Hant", "en-US", "de", "de-1996", "de-CH-1996", "ca-valencia", "sl-biske-rozaj", "sl-biske", "en-001", "zh-Hant-TW", "und", "ca", "sl", "de-CH"];
pub const IDS: &[&str] = &["one", "two", "on"];
fn gen_file(r: &mut Rng, w: &Names, name: &str, comps: &[&str], full: bool) -> Value {
    let (mut co, mut pa, mut ct) = (vec![], vec![], vec![]);
    for c in comps {
        let d = r.pick(&["en", "fr"]).to_string();
        let at = co.len();
        co.push(json!([c, if full { "en" } else { &d }]));
        let mut langs = BTreeSet::new();
        for i in &w.ids { for t in &w.tags { if TAGS.contains(t) && r.chance(1, if full { 3 } else { 4 }) {
            // '&' distinguishes file, component, identifier and tag
            pa.push(json!([c, i, t, format!("{name}&{c}&{i}&{t}")]));
            langs.insert(*t);
        } } }
        if full { langs.insert("en"); if r.chance(1, 3) { langs.insert("de"); } if !pa.iter().any(|p| p[0] == **c && p[2] == "en") { pa.push(json!([c, "one", "en", format!("{name}&{c}&one&en")])); } }
        // now and then the files differ in the default
        if full && r.chance(1, 6) { let own: Vec<&Value> = pa.iter().filter(|p: &&Value| p[0] == **c).collect(); co[at] = json!([c, r.pick(&own)[2]]); }
        for t in &langs { for p in &w.who { if r.chance(1, 2) || p == "Ann" { ct.push(json!([c, t, p])); } } }
    }
    json!({"name": name, "components": co, "contributors": ct, "patterns": pa})
}
pub fn gen_repo(r: &mut Rng, w: &Names, full: bool) -> Value {
    let mut files = vec![];
    let mut aio: Vec<&str> = w.comps.iter().filter(|_| r.chance(1, 2)).map(|x| x.as_str()).collect();
    let mut own: Vec<&str> = w.comps.iter().filter(|_| r.chance(1, 2)).map(|x| x.as_str()).collect();
    if aio.is_empty() && own.is_empty() { own.push("lib"); }
    if r.chance(1, 3) { aio.clear(); if own.is_empty() { own.push("application"); } }
    // order of creation varies the order of the directory
    if !aio.is_empty() { files.push(gen_file(r, w, "__all_in_one__", &aio, full)); }
    for o in own { let f = gen_file(r, w, o, &[o], full); let at = r.below(files.len() + 1); files.insert(at, f); }
    json!(files)
}
pub fn provider(v: &Value) -> Result<(Dir, LocalisationProviderSqlite3), String> {
    if v.as_array().is_none_or(|a| a.iter().all(|f| f["components"].as_array().is_none_or(|c| c.is_empty()))) { return Err("bad case: no component".into()); }
    let d = Dir::new();
    let mut names = BTreeSet::new();
    for f in v.as_array().ok_or("bad case")? {
        if !names.insert(st(&f["name"])?.to_string()) { return Err("bad case: file twice".into()); }
        write_file(&d.0, f)?;
    }
    let p = LocalisationProviderSqlite3::try_new(d.0.clone(), &model::registry(), false).map_err(|e| format!("provider not created: {e}"))?;
    Ok((d, p))
}
#[cfg(feature = "sync")]
pub fn reopen(d: &Dir) -> Result<LocalisationProviderSqlite3, String> {
    LocalisationProviderSqlite3::try_new(d.0.clone(), &model::registry(), false).map_err(|e| format!("provider not created: {e}"))
}
/// the answer to any request, in an order of its own
#[cfg(feature = "sync")]
pub fn answer(p: &LocalisationProviderSqlite3, q: &(String, String, String, String)) -> String {
    fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> { v.sort(); v }
    let data = |m: &std::collections::HashMap<crate::fixtures::Rc<i18n_utility::LanguageTag>, i18n_provider::LanguageData>| sorted(m.iter().map(|(t, d)| format!("{} {} {} {:?}", t.as_str(), d.count, d.ratio, sorted(d.contributors.clone()))).collect());
    match q.0.as_str() {
        "component" => match p.component_details(&q.1) { Ok(d) => format!("{:?} {} {}", data(&d.languages), d.default.as_str(), d.total_strings), Err(e) => format!("error {e:?}") },
        "repository" => match p.repository_details() { Ok(d) => format!("{:?} {:?} {} {:?} {:?}", data(&d.languages), d.default.as_ref().map(|t| t.as_str().to_string()), d.total_strings, sorted(d.components.clone()), sorted(d.contributors.clone())), Err(e) => format!("error {e:?}") },
        "identifier" => match p.identifier_details(&q.1, &q.2) { Ok(d) => format!("{:?} {}", sorted(d.languages.iter().map(|t| t.as_str().to_string()).collect()), d.default.as_str()), Err(e) => format!("error {e:?}") },
        _ => match ask(p, q) { Ok(v) => format!("{:?}", sorted(v)), Err(e) => format!("error {e:?}") },
    }
}
fn rows(f: &Value, c: &str, i: &str) -> Vec<(String, String)> {
    f["patterns"].as_array().map(|a| a.iter().filter(|x| x[0] == c && x[1] == i).map(|x| (x[2].as_str().unwrap_or("").to_string(), x[3].as_str().unwrap_or("").to_string())).collect()).unwrap_or_default()
}
fn has_comp(f: &Value, c: &str) -> bool { f["components"].as_array().map(|a| a.iter().any(|x| x[0] == c)).unwrap_or(false) }
/// the files that are searched for the component, in order
fn files_of<'a>(v: &'a Value, c: &str) -> Vec<&'a Value> {
    let a = v.as_array().unwrap();
    let mut o: Vec<&Value> = a.iter().filter(|f| f["name"] == "__all_in_one__" && has_comp(f, c)).collect();
    o.extend(a.iter().filter(|f| f["name"] == c && c != "__all_in_one__"));
    o
}
/// candidates of the look-up in one file: the strings of the first of tag, parent, … that has any
fn level(f: &Value, c: &str, i: &str, tag: &str) -> Vec<(String, String)> {
    let mut t = tag.to_string();
    loop {
        let m: Vec<(String, String)> = rows(f, c, i).into_iter().filter(|(x, _)| *x == t || x.starts_with(&format!("{t}-"))).collect();
        if !m.is_empty() { return m; }
        match t.rsplit_once('-') { Some((a, _)) => t = a.to_string(), None => return vec![] }
    }
}
fn gen_lookup(r: &mut Rng, _: u64) -> Value {
    let w = names(r);
    let repo = gen_repo(r, &w, false);
    let n = 1 + r.below(if w.ids.len() > 3 { 40 } else { 8 });
    let q: Vec<Value> = (0..n).map(|_| json!([r.pick(&["string", "strings", "exact"]), if r.chance(1, 12) { "nope" } else { r.pick(&w.comps).as_str() }, if r.chance(1, 12) { "nope" } else { r.pick(&w.ids).as_str() }, r.pick(&w.tags)])).collect();
    json!({"repo": repo, "q": q})
}
fn queries(v: &Value) -> Result<Vec<(String, String, String, String)>, String> {
    v["q"].as_array().ok_or("bad case")?.iter().map(|q| { let t = st(&q[3])?; if !RTAGS.contains(&t) { return Err("bad case: tag".to_string()); } Ok((st(&q[0])?.into(), st(&q[1])?.into(), st(&q[2])?.into(), t.into())) }).collect()
}
type L = Result<Vec<(String, String)>, ProviderError>;
fn ask(p: &LocalisationProviderSqlite3, q: &(String, String, String, String)) -> L {
    let t = model::tag(&q.3);
    let one = |r: Result<Option<(String, crate::fixtures::Rc<i18n_utility::LanguageTag>)>, ProviderError>| r.map(|x| x.into_iter().map(|(s, t)| (t.as_str().to_string(), s)).collect::<Vec<_>>());
    match q.0.as_str() {
        "string" => one(p.string(&q.1, &q.2, &t)),
        "exact" => one(p.string_exact_match(&q.1, &q.2, &t)),
        _ => p.strings(&q.1, &q.2, &t).map(|x| x.into_iter().map(|(s, t)| (t.as_str().to_string(), s)).collect()),
    }
}
fn check_p01(v: &Value) -> Check {
    let (_d, p) = provider(&v["repo"])?;
    let mut nt = false;
    for q in queries(v)? {
        if q.0 == "exact" { continue; }
        let files = files_of(&v["repo"], &q.1);
        if files.is_empty() { continue; }
        let mut cand = vec![];
        for f in files { cand = level(f, &q.1, &q.2, &q.3); if !cand.is_empty() { break; } }
        let got = ask(&p, &q).map_err(|e| format!("{q:?}: error {e}"))?;
        if q.0 == "string" {
            // the tag itself (or the parent reached) when present
            let min = cand.iter().map(|x| x.0.split('-').count()).min();
            let exact: Vec<_> = cand.iter().filter(|x| q.3 == x.0 || q.3.starts_with(&format!("{}-", x.0))).cloned().collect();
            let _ = min;
            let allowed = if exact.is_empty() { cand.clone() } else { exact };
            if got.len() > 1 || got.is_empty() != cand.is_empty() || !got.iter().all(|g| allowed.contains(g)) { return Err(format!("{q:?} gives {got:?}, allowed are {allowed:?}")); }
        } else {
            let (mut a, mut b) = (got.clone(), cand.clone());
            a.sort(); b.sort();
            if a != b { return Err(format!("{q:?} gives {got:?}, expected {cand:?}")); }
        }
        nt |= !got.is_empty();
    }
    Ok(nt)
}
fn check_p02(v: &Value) -> Check {
    let (_d, p) = provider(&v["repo"])?;
    let mut nt = false;
    for mut q in queries(v)? {
        // ordinary look-ups in between must not influence the exact ones
        if q.0 != "exact" { let _ = ask(&p, &q); }
        q.0 = "exact".into();
        let files = files_of(&v["repo"], &q.1);
        if files.is_empty() { continue; }
        let want: Vec<(String, String)> = files.iter().flat_map(|f| rows(f, &q.1, &q.2)).filter(|x| x.0 == q.3).take(1).collect();
        let got = ask(&p, &q).map_err(|e| format!("{q:?}: error {e}"))?;
        if got.len() != want.len() || got.iter().any(|g| g.0 != q.3) { return Err(format!("exact look-up {q:?} gives {got:?}, expected {want:?}")); }
        nt |= files.iter().any(|f| !level(f, &q.1, &q.2, &q.3).is_empty());
    }
    Ok(nt)
}
fn check_p03(v: &Value) -> Check {
    let (_d, p) = provider(&v["repo"])?;
    let mut nt = false;
    for q in queries(v)? {
        let files = files_of(&v["repo"], &q.1);
        let got = ask(&p, &q);
        if files.is_empty() {
            match got { Err(ProviderError::ComponentNotFound(c)) if c == q.1 => { nt = true; continue; } x => return Err(format!("{q:?}: component in no file, gives {x:?}")) }
        }
        let got = got.map_err(|e| format!("{q:?}: error {e}"))?;
        let find = |f: &&Value| if q.0 == "exact" { rows(f, &q.1, &q.2).into_iter().filter(|x| x.0 == q.3).collect() } else { level(f, &q.1, &q.2, &q.3) };
        let first = files.iter().map(find).find(|x| !x.is_empty()).unwrap_or_default();
        if got.is_empty() != first.is_empty() { return Err(format!("{q:?} gives {got:?}, candidates of the first file that has any: {first:?}")); }
        for g in &got {
            // strings are marked with file, component and identifier
            let own: Vec<&str> = first[0].1.split('&').collect();
            let m: Vec<&str> = g.1.split('&').collect();
            if own.len() != 4 || own[3] != first[0].0 { return Err("bad case: string".into()); }
            if m.len() != 4 || m[0] != own[0] || m[1] != q.1 || m[2] != q.2 || m[3] != g.0 { return Err(format!("{q:?} gives {g:?}, a string of another file, component, identifier or language")); }
        }
        nt |= files.len() == 2 && !got.is_empty();
    }
    Ok(nt)
}
fn gen_p04(r: &mut Rng, _: u64) -> Value {
    let w = names(r);
    let mut repo = gen_repo(r, &w, true);
    // strings need not differ
    if r.chance(1, 3) { for f in repo.as_array_mut().unwrap() { for p in f["patterns"].as_array_mut().unwrap() { if r.chance(1, 2) { p[3] = json!(r.pick(&["", "same", "one"])); } } } }
    json!({"repo": repo, "first": r.pick(&["component", "repository", "identifier"])})
}
fn check_p04(v: &Value) -> Check {
    let repo = &v["repo"];
    let (_d, p) = provider(repo)?;
    let mut comps: BTreeSet<String> = BTreeSet::new();
    for f in repo.as_array().unwrap() {
        if f["name"] == "__all_in_one__" { for c in f["components"].as_array().unwrap() { comps.insert(st(&c[0])?.into()); } }
        else { comps.insert(st(&f["name"])?.into()); if !has_comp(f, st(&f["name"])?) { return Err("bad case: no component".into()); } }
    }
    if v["first"] == "repository" { let _ = p.repository_details(); }
    if v["first"] == "identifier" { let _ = p.identifier_details("lib", "one"); }
    let mut rep: BTreeMap<String, usize> = BTreeMap::new();
    let (mut total, mut who_all) = (0, BTreeSet::new());
    let mut rep_default = None;
    for c in &comps {
        let files = files_of(repo, c);
        let mut langs: BTreeMap<String, (usize, BTreeSet<String>)> = BTreeMap::new();
        // the first is that of the all-in-one file
        let mut defaults = vec![];
        for f in &files {
            for x in f["contributors"].as_array().unwrap() { if x[0] == **c { langs.entry(st(&x[1])?.into()).or_default().1.insert(st(&x[2])?.into()); } }
            for x in f["components"].as_array().unwrap() { if x[0] == **c { defaults.push(st(&x[1])?.to_string()); } }
        }
        for f in &files { for x in f["patterns"].as_array().unwrap() { if x[0] == **c {
            match langs.get_mut(st(&x[2])?) { Some(e) => e.0 += 1, None => return Err("bad case: language without contributor".into()) }
        } } }
        let Some(def) = defaults.into_iter().next() else { return Err("bad case: defaults".into()) };
        let Some(dc) = langs.get(&def).map(|x| x.0) else { return Err("bad case: default".into()) };
        if dc == 0 { return Err("bad case: no string for the default".into()); }
        let d = p.component_details(c).map_err(|e| format!("component_details({c}): {e}"))?;
        if d.default.as_str() != def { return Err(format!("default of {c} is {}, expected {def}", d.default.as_str())); }
        if d.languages.len() != langs.len() { return Err(format!("{c} lists {} languages, expected {}", d.languages.len(), langs.len())); }
        let mut sum = 0;
        for (t, x) in &d.languages {
            let Some((n, who)) = langs.get(t.as_str()) else { return Err(format!("{c} lists language {}", t.as_str())) };
            if x.count != *n { return Err(format!("{c}/{}: count {}, expected {n}", t.as_str(), x.count)); }
            let mut w = x.contributors.clone();
            w.sort();
            if w != who.iter().cloned().collect::<Vec<_>>() { return Err(format!("{c}/{}: contributors {w:?}, expected {who:?}", t.as_str())); }
            if (x.ratio - *n as f32 / dc as f32).abs() > 1e-6 { return Err(format!("{c}/{}: ratio {}, expected {n}/{dc}", t.as_str(), x.ratio)); }
            sum += n;
            *rep.entry(t.as_str().into()).or_default() += n;
            who_all.extend(who.iter().cloned());
        }
        if d.total_strings != sum { return Err(format!("{c}: total {}, expected {sum}", d.total_strings)); }
        total += sum;
        if c == "application" { rep_default = Some(def.clone()); }
        let ids: BTreeSet<&str> = files.iter().flat_map(|f| f["patterns"].as_array().unwrap()).filter_map(|x| x[1].as_str()).chain(IDS.iter().cloned()).collect();
        for i in ids {
            let want: BTreeSet<String> = files.iter().flat_map(|f| rows(f, c, i)).map(|x| x.0).collect();
            let id = p.identifier_details(c, i).map_err(|e| format!("identifier_details({c}, {i}): {e}"))?;
            let mut got: Vec<String> = id.languages.iter().map(|t| t.as_str().to_string()).collect();
            got.sort();
            if got != want.iter().cloned().collect::<Vec<_>>() { return Err(format!("{c}/{i}: languages {got:?}, expected {want:?}")); }
            if id.default.as_str() != def { return Err(format!("{c}/{i}: default {}", id.default.as_str())); }
        }
    }
    match p.component_details("nope") { Err(ProviderError::ComponentNotFound(c)) if c == "nope" => {} x => return Err(format!("details of an unknown component: {x:?}")) }
    match p.identifier_details("nope", "one") { Err(ProviderError::ComponentNotFound(c)) if c == "nope" => {} x => return Err(format!("identifier details of an unknown component: {x:?}")) }
    let d = p.repository_details().map_err(|e| format!("repository_details: {e}"))?;
    let mut l = d.components.clone();
    l.sort();
    if l != comps.iter().cloned().collect::<Vec<_>>() { return Err(format!("repository components {l:?}, expected {comps:?}")); }
    if d.default.as_ref().map(|x| x.as_str().to_string()) != rep_default { return Err(format!("repository default {:?}, expected {rep_default:?}", d.default)); }
    if d.total_strings != total { return Err(format!("repository total {}, expected {total}", d.total_strings)); }
    let mut w = d.contributors.clone();
    w.sort();
    if w != who_all.iter().cloned().collect::<Vec<_>>() { return Err(format!("repository contributors {w:?}, expected {who_all:?}")); }
    if d.languages.len() != rep.len() { return Err(format!("repository lists {} languages, expected {rep:?}", d.languages.len())); }
    for (t, x) in &d.languages {
        let Some(n) = rep.get(t.as_str()) else { return Err(format!("repository lists language {}", t.as_str())) };
        if x.count != *n { return Err(format!("repository/{}: count {}, expected {n}", t.as_str(), x.count)); }
        if let Some(def) = &rep_default { let dc = rep[def]; if (x.ratio - *n as f32 / dc as f32).abs() > 1e-6 { return Err(format!("repository/{}: ratio {}, expected {n}/{dc}", t.as_str(), x.ratio)); } }
    }
    Ok(comps.len() > 1)
}
// ----- P05 -----
fn gen_p05(r: &mut Rng, i: u64) -> Value {
    // every single edit of the schema once, then combinations
    let mut all: Vec<Value> = vec![json!(["none"]), json!(["version", "1.1"]), json!(["version", "2.0"]), json!(["version", ""]), json!(["noversion"]), json!(["text"]), json!(["empty"]), json!(["index"])];
    for (t, cols) in SCHEMA {
        all.push(json!(["table", t]));
        for (k, (c, _)) in cols.iter().enumerate() {
            for e in ["rename", "type", "null", "pk", "default", "cut", "drop", "case"] { if e == "cut" && k == 0 || *t == "metadata" && (matches!(e, "type" | "null" | "pk" | "default") || *c == "component" && matches!(e, "rename" | "drop")) { continue; } all.push(json!([e, t, k, c])); }
        }
        all.push(json!(["extra", t]));
    }
    let one = |r: &mut Rng, e: Value| json!({"name": if r.chance(1, 10) { r.pick(P05_NAMES) } else { r.pick(&P05_NAMES[..3]) }, "edit": e, "comps": r.chance(3, 4)});
    if (i as usize) < all.len() {
        let n = if i % 2 == 0 { "a" } else { "__all_in_one__" };
        return json!({"files": [{"name": n, "edit": all[i as usize], "comps": true}], "other": [], "kind": "dir", "raw": i % 3 == 1, "uri": i % 3 == 2});
    }
    let n = r.below(4);
    let mut files: Vec<Value> = vec![];
    for _ in 0..n { let e = if r.chance(3, 4) { json!(["none"]) } else { r.pick(&all).clone() }; let f = one(r, e); if !files.iter().any(|g| g["name"] == f["name"]) { files.push(f); } }
    let mut other = vec![];
    for o in ["readme.txt", "x.sqlite", "sub", "y.sqlite3.bak", ".sqlite3", "z.SQLITE3", "dir.sqlite3"] { if r.chance(1, 5) { other.push(o); } }
    json!({"files": files, "other": other, "kind": if r.chance(1, 12) { *r.pick(&["missing", "file"]) } else { "dir" }, "raw": r.chance(1, 6), "uri": r.chance(1, 6)})
}
/// Some(class) when the edit makes the file invalid
fn expect(e: &Value) -> Result<Option<&'static str>, String> {
    let k = st(&e[0])?;
    let t = e.get(1).and_then(|x| x.as_str()).unwrap_or("");
    if !matches!(k, "none" | "version" | "noversion" | "text" | "empty" | "index") {
        let Some((_, cols)) = SCHEMA.iter().find(|x| x.0 == t) else { return Err("bad case: table".into()) };
        if !matches!(k, "table" | "extra") && cols.get(e[2].as_u64().unwrap_or(999) as usize).map(|c| c.0) != e[3].as_str() { return Err("bad case: column".into()); }
    }
    let meta = t == "metadata";
    Ok(match k {
        "none" | "extra" | "index" => None,
        "version" | "noversion" => Some("Version"),
        "text" => Some("any"),
        "empty" => Some("MissingTable"),
        "table" => Some("MissingTable"),
        // of the metadata table only key and value are required
        _ if meta => {
            let c = st(&e[3])?;
            if matches!(k, "type" | "null" | "pk" | "default") || c == "component" && matches!(k, "rename" | "drop") { return Err("bad case: edit".into()); }
            if (c == "key" || c == "value") && matches!(k, "rename" | "drop") || k == "cut" && e[2].as_u64().unwrap_or(0) <= 3 { Some("any") } else { None }
        }
        "rename" => Some("MissingColumn"),
        "case" => Some("MissingColumn"),
        "cut" | "drop" => Some("MissingColumn"),
        "type" => Some("ColumnProperty"),
        "null" => Some("ColumnProperty"),
        "pk" => Some("any"),
        "default" => Some("any"),
        _ => return Err("bad case: edit".into()),
    })
}
const P05_NAMES: &[&str] = &["a", "b", "__all_in_one__", ".a", "__all_in_one__x", "a.b", "A", "é", "a b", "file:a"];
fn write_p05(dir: &Path, f: &Value) -> Result<bool, String> {
    let name = st(&f["name"])?;
    if !P05_NAMES.contains(&name) { return Err("bad case: name".into()); }
    let path = dir.join(format!("{name}.sqlite3"));
    let e = &f["edit"];
    let k = st(&e[0])?;
    if k == "text" { std::fs::write(&path, "this is not a database, it is a text file that is long enough for a header").unwrap(); return Ok(false); }
    if k == "empty" { std::fs::write(&path, "").unwrap(); return Ok(false); }
    let c = open(&path);
    let et = e.get(1).and_then(|x| x.as_str()).unwrap_or("").to_string();
    let ei = e.get(2).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    let skip = if k == "table" { Some(et.as_str()) } else { None };
    let sql = create_sql(skip, &|t, cols| {
        if t != et { return; }
        match k {
            "extra" => cols.push(("more".into(), "TEXT".into())),
            "cut" => cols.truncate(ei),
            "drop" => { if ei < cols.len() { cols.remove(ei); } }
            _ if ei >= cols.len() => {}
            "rename" => cols[ei].0.push('X'),
            "case" => cols[ei].0 = if cols[ei].0.chars().next().unwrap().is_lowercase() { cols[ei].0.to_uppercase() } else { cols[ei].0.to_lowercase() },
            "type" => cols[ei].1 = if cols[ei].1.starts_with("TEXT") { cols[ei].1.replacen("TEXT", "BLOB", 1) } else if cols[ei].1.starts_with("INTEGER PRIMARY") { "INT PRIMARY KEY NOT NULL".into() } else { let (_, b) = cols[ei].1.split_once(' ').unwrap_or(("", "")); format!("NUMERIC {b}") },
            "null" => cols[ei].1 = if cols[ei].1.contains("NOT NULL") { cols[ei].1.replace(" NOT NULL", "") } else { format!("{} NOT NULL", cols[ei].1) },
            "pk" => { if ei == 0 { cols[0].1 = "INTEGER NOT NULL".into(); } else { cols[0].1 = "INTEGER NOT NULL".into(); cols[ei].1.push_str(" PRIMARY KEY"); } }
            "default" => { if ei == 0 { cols[0].1 = "INTEGER NOT NULL PRIMARY KEY DEFAULT 5".into(); } else { let d = if cols[ei].1.starts_with("TEXT") { " DEFAULT 'd'" } else { " DEFAULT 5" }; cols[ei].1.push_str(d); } }
            _ => {}
        }
    });
    if k == "cut" && ei == 0 { return Err("bad case: no columns".into()); }
    c.execute_batch(&sql).map_err(|e| format!("bad case: {e}"))?;
    let v = match k { "version" => st(&e[1])?, _ => "1.0" };
    if k != "noversion" { let _ = c.execute("INSERT INTO metadata (component, key, value) VALUES (?1, 'schema_version', ?2)", [name, v]); }
    if k != "noversion" && k != "table" && et == "metadata" { let _ = c.execute("INSERT INTO metadata (key, value) SELECT 'schema_version', ?1 WHERE NOT EXISTS (SELECT 1 FROM metadata)", [v]); }
    let comps = f["comps"].as_bool().ok_or("bad case")?;
    if comps { let _ = c.execute("INSERT INTO component (identifier, languageTag, added) VALUES (?1, 'en', '2024-01-01')", [if name == "__all_in_one__" { "a" } else { name }]); }
    if k == "index" { let _ = c.execute_batch("CREATE INDEX ix ON pattern (identifier); CREATE TABLE unrelated (x);"); }
    c.execute_batch("COMMIT;").map_err(|e| format!("bad case: {e}"))?;
    Ok(comps || name != "__all_in_one__")
}
fn class(e: &ProviderSqlite3Error) -> &'static str {
    match e {
        ProviderSqlite3Error::NotDirectory(_) => "NotDirectory",
        ProviderSqlite3Error::NoSqlite3Files(_) => "NoSqlite3Files",
        ProviderSqlite3Error::SchemaInvalid(s) => match s { SchemaError::MissingTable(_) => "MissingTable", SchemaError::Version(..) | SchemaError::MissingVersion(_) => "Version", SchemaError::MissingColumn(..) => "MissingColumn", SchemaError::ColumnProperty(..) => "ColumnProperty", SchemaError::ColumnDefault(..) => "ColumnDefault", _ => "schema" },
        _ => "other",
    }
}
fn check_p05(v: &Value) -> Check {
    let d = Dir::new();
    // a directory whose name is not valid Unicode is a directory as well
    let uri = v.get("uri").and_then(|x| x.as_bool()).unwrap_or(false);
    // a relative path that looks like an URI of SQLite is still a path
    let u = Dir(fixtures::scratch().join(format!("file:{}", d.0.file_name().unwrap().to_str().unwrap())));
    let root = if uri {
        static CD: std::sync::Once = std::sync::Once::new();
        CD.call_once(|| { let _ = std::env::set_current_dir(fixtures::scratch()); });
        u.0.clone()
    } else if v.get("raw").and_then(|x| x.as_bool()).unwrap_or(false) { d.0.join(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(b"repo\xff")) } else { d.0.join("repo") };
    let kind = st(&v["kind"])?;
    if !["dir", "file", "missing"].contains(&kind) { return Err("bad case: kind".into()); }
    let mut want: BTreeSet<&'static str> = BTreeSet::new();
    if kind == "file" { std::fs::write(&root, "x").unwrap(); want.insert("NotDirectory"); }
    else if kind == "missing" { want.insert("NotDirectory"); }
    else {
        std::fs::create_dir(&root).unwrap();
        let (mut any, mut names) = (false, BTreeSet::new());
        for o in v["other"].as_array().ok_or("bad case")? {
            let o = st(o)?;
            if o.is_empty() || o.contains('/') || o.starts_with("..") || o == "." { return Err("bad case: name".into()); }
            if o == "sub" || o == "dir.sqlite3" { let _ = std::fs::create_dir(root.join(o)); } else if !o.ends_with(".sqlite3") || o == ".sqlite3" { std::fs::write(root.join(o), "garbage").unwrap(); } else { return Err("bad case: name".into()); }
        }
        for f in v["files"].as_array().ok_or("bad case")? {
            if !names.insert(st(&f["name"])?.to_string()) { return Err("bad case: file twice".into()); }
            let ex = expect(&f["edit"])?;
            let has = write_p05(&root, f)?;
            if f["edit"][0] == "extra" && f["edit"][1] == "metadata" { /* allowed */ }
            match ex { Some(e) => { want.insert(e); } None => any |= has }
        }
        if want.is_empty() && !any { want.insert("NoSqlite3Files"); }
    }
    let arg = if uri { PathBuf::from(root.file_name().unwrap()) } else { root };
    let got = LocalisationProviderSqlite3::try_new(arg, &model::registry(), false);
    match got {
        Ok(p) => if want.is_empty() {
            // the components are those of the files
            let fs = v["files"].as_array().ok_or("bad case")?;
            let tag = model::registry().tag("en").map_err(|e| format!("bad case: {e:?}"))?;
            for c in P05_NAMES.iter().copied().chain(["c"]) {
                let has = fs.iter().any(|f| if f["name"] == "__all_in_one__" { c == "a" && f["comps"] == true } else { f["name"] == c });
                let found = match p.strings(c, "x", &tag) { Ok(_) => true, Err(ProviderError::ComponentNotFound(_)) => false, Err(e) => return Err(format!("look-up in component {c}: {e:?}")) };
                if has != found { return Err(format!("component {c} known: {found}, in the files: {has}")); }
            }
            Ok(true)
        } else { Err(format!("provider created although the directory has {want:?} errors")) },
        Err(e) => {
            if want.is_empty() { return Err(format!("valid directory rejected: {e:?}")); }
            if !want.contains("any") && !want.contains(class(&e)) { return Err(format!("error {e:?}, expected {want:?}")); }
            blame(v, &e)?;
            Ok(true)
        }
    }
}
/// the table and column named by the error of the only invalid file
fn blame(v: &Value, e: &ProviderSqlite3Error) -> Result<(), String> {
    let ProviderSqlite3Error::SchemaInvalid(s) = e else { return Ok(()) };
    let (table, column) = match s {
        SchemaError::MissingTable(t) => (t, None),
        SchemaError::MissingColumn(t, c) | SchemaError::ColumnProperty(t, c, _) | SchemaError::ColumnDefault(t, c, _) => (t, Some(c)),
        SchemaError::ColumnMismatch(t, c, ..) => (t, Some(c)),
        _ => return Ok(()),
    };
    let bad: Vec<&Value> = v["files"].as_array().into_iter().flatten().map(|f| &f["edit"]).filter(|x| !matches!(expect(x), Ok(None))).collect();
    let [x] = bad[..] else { return Ok(()) };
    let (k, t) = (st(&x[0])?, x.get(1).and_then(|x| x.as_str()).unwrap_or(""));
    let Some((_, cols)) = SCHEMA.iter().find(|s| s.0 == table.as_str()) else { return Err(format!("error {e:?} names no table of the schema")) };
    if k != "empty" && table != t { return Err(format!("error {e:?} for the edit {x}")); }
    if let Some(c) = column {
        let Some(at) = cols.iter().position(|y| y.0 == c.as_str()) else { return Err(format!("error {e:?} names no column of the schema")) };
        let i = x.get(2).and_then(|y| y.as_u64()).unwrap_or(0) as usize;
        if !match k { "cut" | "drop" => at >= i, "pk" => at == i || at == 0, "rename" | "case" | "type" | "null" | "default" => at == i, _ => true } { return Err(format!("error {e:?} for the edit {x}")); }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    let rule = "random repositories (3 components in the all-in-one file, own files or both, 3 identifiers, 12 tags; now and then more of each, with unusual names) and 1-8 (40) look-ups";
    let s = |x: &str| -> &'static str { Box::leak(format!("{rule}; {x}").into_boxed_str()) };
    vec![
        Prop { id: "P01", rule: s("non-trivial: a string is found"), gen: gen_lookup, check: check_p01 },
        Prop { id: "P02", rule: s("all look-ups made exact; non-trivial: some related tag has a string"), gen: gen_lookup, check: check_p02 },
        Prop { id: "P03", rule: s("strings carry their file, component and identifier; non-trivial: found with the component in two files, or unknown component"), gen: gen_lookup, check: check_p03 },
        Prop { id: "P04", rule: "random valid repositories, all details compared with counts over the generated rows; non-trivial: more than one component", gen: gen_p04, check: check_p04 },
        Prop { id: "P05", rule: "every single edit of the schema (each table and column: removed, renamed, type, NULL, key, default), then random directories of up to three files with other files and sub-directories; every case is non-trivial", gen: gen_p05, check: check_p05 },
    ]
}
