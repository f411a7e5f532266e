#![allow(dead_code, unused_imports)]
use i18n_lexer::*;
use i18n_localiser::*;
use i18n_provider::*;
use i18n_provider_sqlite3::*;
use i18n_utility::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// a repository in memory: (component, identifier, requested tag) -> (pattern, tag), component -> default tag
#[derive(Clone, Default)]
struct Mock { s: Rc<RefCell<HashMap<(String, String, String), (String, String)>>>, d: Rc<RefCell<HashMap<String, String>>>, reg: Rc<LanguageTagRegistry>, fail: Rc<RefCell<bool>> }
impl Mock {
    fn add(&self, c: &str, i: &str, t: &str, p: &str) -> &Self { self.s.borrow_mut().insert((c.into(), i.into(), t.into()), (p.into(), t.into())); self }
    fn dflt(&self, c: &str, t: &str) -> &Self { self.d.borrow_mut().insert(c.into(), t.into()); self }
    fn tag(&self, t: &str) -> Rc<LanguageTag> { self.reg.tag(t).unwrap() }
    fn localiser(&self, fallback: bool, caching: bool, lang: &str, commands: CommandRegistry) -> Localiser {
        Localiser::try_new(&Rc::new(IcuDataProvider::try_new(i18n_lexer::DataProvider::Internal).unwrap()), &self.reg, Box::new(self.clone()), &Rc::new(commands), fallback, caching, lang).unwrap()
    }
}
impl LocalisationProviderTrait for Mock {
    fn string(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        if *self.fail.borrow() { return Err(ProviderError::ComponentNotFound("broken".into())); }
        Ok(self.s.borrow().get(&(c.into(), i.into(), t.as_str().into())).map(|(s, t)| (s.clone(), self.tag(t))))
    }
    fn string_exact_match(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> { self.string(c, i, t) }
    fn strings(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Vec<(String, Rc<LanguageTag>)>, ProviderError> { Ok(self.string(c, i, t)?.into_iter().collect()) }
    fn identifier_details(&self, _: &str, _: &str) -> Result<IdentifierDetails, ProviderError> { unimplemented!() }
    fn component_details(&self, c: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        match self.d.borrow().get(c) {
            None => Err(ProviderError::ComponentNotFound(c.into())),
            Some(t) => Ok(Rc::new(ComponentDetails { languages: HashMap::new(), default: self.tag(t), total_strings: 0 })),
        }
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> { unimplemented!() }
}
fn vals(v: &[(&str, PlaceholderValue)]) -> HashMap<String, PlaceholderValue> { v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect() }
fn show(r: Result<(Rc<String>, Rc<LanguageTag>), LocaliserError>) -> String { match r { Ok((s, t)) => format!("{s}@{}", t.as_str()), Err(e) => format!("ERR {e:?}") } }
/// one pattern formatted once
fn fmt(pattern: &str, lang: &str, v: &[(&str, PlaceholderValue)]) -> String {
    let m = Mock::default();
    m.add("c", "i", lang, pattern);
    let l = m.localiser(false, false, lang, CommandRegistry::new());
    let t = m.tag(lang);
    show(l.format("c", "i", &vals(v), &t, None, None))
}
/// a repository file in the current directory's `dir`
fn repo_file(dir: &str, name: &str, components: &[(&str, &str)], contributors: &[(&str, &str, &str)], patterns: &[(&str, &str, &str, &str)]) {
    std::fs::create_dir_all(dir).unwrap();
    let c = rusqlite::Connection::open(format!("{dir}/{name}.sqlite3")).unwrap();
    c.execute_batch("CREATE TABLE component (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, identifier TEXT NOT NULL, languageTag TEXT NOT NULL, comment TEXT, added DATE NOT NULL);
        CREATE TABLE contributor (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, languageTag TEXT NOT NULL, contributor TEXT NOT NULL, substituteFor TEXT, comment TEXT, verified DATE);
        CREATE TABLE language (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, tag TEXT NOT NULL, englishName TEXT, added DATE NOT NULL);
        CREATE TABLE languageData (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, languageTag TEXT NOT NULL, count INTEGER NOT NULL, ratio REAL NOT NULL);
        CREATE TABLE metadata (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, key TEXT NOT NULL, value TEXT NOT NULL, comment TEXT, verified DATE);
        CREATE TABLE pattern (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, identifier TEXT NOT NULL, languageTag TEXT NOT NULL, string TEXT NOT NULL, comment TEXT, verified DATE);").unwrap();
    c.execute("INSERT INTO metadata (component, key, value) VALUES (?1, 'schema_version', '1.0')", [name]).unwrap();
    for (a, b) in components { c.execute("INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", [a, b]).unwrap(); }
    for (a, b, d) in contributors { c.execute("INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)", [a, b, d]).unwrap(); }
    for (a, b, d, e) in patterns { c.execute("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", [a, b, d, e]).unwrap(); }
}
fn check(ok: bool, what: &str) { if !ok { println!("FAILS: {what}"); std::process::exit(1); } }
