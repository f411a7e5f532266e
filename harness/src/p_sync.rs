//! Y01-Y03 (feature `sync`): several threads share one localiser, registry or repository; every call has to give
//! what it gives alone.  Also the properties of single calls (K, R, C, P), in this build of the crates.
use crate::{fixtures::Rc, model, p_command, p_localiser, p_provider, rng::Rng, Check, Prop};
use i18n_localiser::{CommandRegistry, Localiser};
use i18n_utility::LanguageTagRegistry;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

// the types a program shares between its threads
fn shared<T: Send + Sync>() {}
#[allow(dead_code)]
fn shared_types() {
    shared::<LanguageTagRegistry>();
    shared::<i18n_lexer::IcuDataProvider>();
    shared::<i18n_provider_sqlite3::LocalisationProviderSqlite3>();
    shared::<CommandRegistry>();
    shared::<Localiser>();
}

/// the calls of n threads in each round, started at the same time; Err: a thread panicked
fn together<T: Send>(n: usize, rounds: u64, f: impl Fn(u64, usize) -> T + Sync) -> Result<Vec<Vec<T>>, String> {
    let (at, dead) = (AtomicUsize::new(0), AtomicBool::new(false));
    let (at, dead, f) = (&at, &dead, &f);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|k| s.spawn(move || {
            let mut out = vec![];
            for r in 0..rounds {
                // a spinning barrier: the threads leave it within a fraction of a microsecond
                at.fetch_add(1, Ordering::SeqCst);
                let mut spins = 0u32;
                while at.load(Ordering::SeqCst) < n * (r as usize + 1) && !dead.load(Ordering::SeqCst) { spins += 1; if spins > 300 { std::thread::yield_now(); } std::hint::spin_loop(); }
                if dead.load(Ordering::SeqCst) { break; }
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r, k))) {
                    Ok(x) => out.push(x),
                    Err(e) => { dead.store(true, Ordering::SeqCst); return Err(format!("round {r}, thread {k} panics: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())); }
                }
            }
            Ok(out)
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panics".into()))).collect()
    })
}
/// where threads that look a string up wait for each other, for a moment
#[derive(Default)]
pub struct Gate { n: AtomicUsize, at: AtomicUsize }
impl Gate {
    pub fn set(&self, n: usize) { self.at.store(0, Ordering::SeqCst); self.n.store(n, Ordering::SeqCst); }
    pub fn pass(&self) {
        let n = self.n.load(Ordering::SeqCst);
        if n < 2 { return; }
        let to = (self.at.fetch_add(1, Ordering::SeqCst) / n + 1) * n;
        for k in 0..3000 { if k % 500 == 499 { std::thread::yield_now(); } if self.at.load(Ordering::SeqCst) >= to { break; } std::hint::spin_loop(); }
    }
}
// one time in three, a property of single calls
fn single(r: &mut Rng, i: u64, of: &[&str]) -> Option<Value> {
    if i % 3 != 2 { return None; }
    let id = *r.pick(of);
    let p = crate::props().into_iter().find(|p| p.id == id)?;
    Some(json!({"single": id, "case": (p.gen)(r, i / 3)}))
}
fn check_single(v: &Value) -> Option<Check> {
    let id = v["single"].as_str()?;
    let p = crate::props().into_iter().find(|p| p.id == id && !id.starts_with('Y'))?;
    Some((p.check)(&v["case"]).map_err(|e| if e.starts_with("bad case") { e } else { format!("{id}: {e}") }))
}
fn lists<'a>(v: &'a Value) -> Result<Vec<&'a Vec<Value>>, String> {
    let t: Vec<&Vec<Value>> = v["threads"].as_array().ok_or("bad case")?.iter().map(|x| x.as_array().ok_or("bad case: thread")).collect::<Result<_, _>>()?;
    if t.is_empty() || t.len() > 8 { return Err("bad case: threads".into()); }
    Ok(t)
}
fn rounds(v: &Value) -> u64 { v["rounds"].as_u64().unwrap_or(1).clamp(1, 200) }

// ----- Y01: the localiser -----
const TAGS: &[&str] = p_localiser::TAGS;
fn gen_op(r: &mut Rng, names: &p_localiser::Names, sets: bool) -> Value {
    let mut o = p_localiser::gen_op(r, names);
    match r.below(if sets { 8 } else { 4 }) {
        0 => o[0] = json!("data"),
        1..=3 => {}
        4 | 5 => o[0] = json!(r.pick(&["format", "literal", "data"]).to_string() + "d"),
        _ => o = json!(["set", if r.chance(1, 2) { json!(r.pick(&TAGS[..4])) } else { Value::Null }, r.pick(&[Value::Null, json!(true), json!(false)]).clone(), r.pick(&[Value::Null, json!(true), json!(false)]).clone()]),
    }
    o
}
fn gen_y01(r: &mut Rng, i: u64) -> Value {
    if let Some(v) = single(r, i, &["K01", "K02", "K03", "K04", "C01"]) { return v; }
    // few requests, asked by several threads; now and then many of them, so that much is cached
    let many = r.chance(1, 6);
    let n = if many { 3 + r.below(6) } else { 2 + r.below(3) };
    let sets = r.chance(1, 2);
    let mut names = p_localiser::few();
    if many { names.tags = TAGS.to_vec(); }
    let pool: Vec<Value> = (0..if many { 8 + r.below(40) } else { 1 + r.below(6) }).map(|_| gen_op(r, &names, sets)).collect();
    let threads: Vec<Vec<Value>> = (0..n).map(|_| (0..if many { 10 + r.below(30) } else { 1 + r.below(5) }).map(|_| r.pick(&pool).clone()).collect()).collect();
    json!({"repo": p_localiser::gen_repo(r, &names, false), "lang": r.pick(&TAGS[..4]), "fallback": r.chance(1, 2), "caching": r.chance(4, 5), "threads": threads, "gate": r.chance(2, 3), "rounds": 4 + r.below(12)})
}
fn check_y01(v: &Value) -> Check {
    if let Some(c) = check_single(v) { return c; }
    let m = p_localiser::repo(&v["repo"])?;
    let ts = lists(v)?;
    let (lang, fb, ca) = (v["lang"].as_str().ok_or("bad case")?, v["fallback"].as_bool().ok_or("bad case")?, v["caching"].as_bool().ok_or("bad case")?);
    if !TAGS.contains(&lang) { return Err("bad case: tag".into()); }
    let plain = model::localiser(&m, false, false, "en")?;
    // the defaults that may hold during the calls
    let (mut langs, mut fbs) = (vec![lang.to_string()], vec![fb]);
    for x in ts.iter().flat_map(|t| t.iter()) {
        if x[0] != "set" { continue; }
        if let Some(t) = x[1].as_str() { if !TAGS.contains(&t) { return Err("bad case: tag".into()); } langs.push(t.into()); }
        if let Some(b) = x[2].as_bool() { fbs.push(b); }
    }
    langs.sort(); langs.dedup(); fbs.sort(); fbs.dedup();
    let base = |k: &str| -> Result<String, String> { let k = k.strip_suffix('d').unwrap_or(k); if ["format", "literal", "data"].contains(&k) { Ok(k.into()) } else { Err("bad case: op".into()) } };
    // what each call gives alone
    let mut want: Vec<Vec<Vec<String>>> = vec![];
    for t in &ts {
        let mut w = vec![];
        for x in t.iter() {
            let kind = x[0].as_str().ok_or("bad case: op")?;
            let mut a = vec![];
            if kind != "set" {
                let mut o = p_localiser::op(x)?;
                let d = kind.ends_with('d');
                o.kind = base(kind)?;
                o.ca = Some(false);
                for f in if !d && o.fb.is_some() { vec![o.fb.unwrap()] } else { fbs.clone() } {
                    for l in if d { langs.clone() } else { vec![o.t.clone()] } {
                        o.fb = Some(f);
                        o.t = l;
                        a.push(p_localiser::desc(&p_localiser::run(&plain, &o)));
                    }
                }
            }
            w.push(a);
        }
        want.push(w);
    }
    let ls = (0..rounds(v)).map(|_| model::localiser(&m, fb, ca, lang)).collect::<Result<Vec<_>, String>>()?;
    if v["gate"].as_bool().unwrap_or(false) { m.1.set(ts.len()); }
    let got = together(ts.len(), rounds(v), |round, k| -> Result<Vec<String>, String> {
        let l = &ls[round as usize];
        let mut a = vec![];
        for x in ts[k] {
            if x[0] == "set" {
                l.defaults(x[1].as_str().map(model::tag), x[2].as_bool(), x[3].as_bool()).map_err(|e| format!("defaults fails: {e}"))?;
                a.push(String::new());
                continue;
            }
            let o = p_localiser::op(x)?;
            a.push(p_localiser::desc(&p_localiser::run(l, &o)));
        }
        Ok(a)
    });
    m.1.set(0);
    for (k, g) in got?.into_iter().enumerate() {
        for (round, g) in g.into_iter().enumerate() {
            for (j, a) in g?.into_iter().enumerate() {
                if ts[k][j][0] != "set" && !want[k][j].contains(&a) { return Err(format!("round {round}, thread {k}, call {j} {}: gives {a}, alone it gives {}", ts[k][j], want[k][j].join(" or "))); }
            }
        }
    }
    for (round, l) in ls.iter().enumerate() {
        // afterwards the localiser still gives every result
        for x in ts.iter().flat_map(|t| t.iter()) {
            if x[0] == "set" || x[0].as_str().is_some_and(|k| k.ends_with('d')) { continue; }
            let mut o = p_localiser::op(x)?;
            let fs = if let Some(f) = o.fb { vec![f] } else { fbs.clone() };
            let a = p_localiser::desc(&p_localiser::run(l, &o));
            o.ca = Some(false);
            let w: Vec<String> = fs.iter().map(|f| { o.fb = Some(*f); p_localiser::desc(&p_localiser::run(&plain, &o)) }).collect();
            if !w.contains(&a) { return Err(format!("round {round}, after the threads, {x}: gives {a}, expected {}", w.join(" or "))); }
        }
    }
    Ok(ts.len() > 1)
}

// ----- Y02: the registries -----
const RTAGS: &[&str] = &["en", "EN", "en-ZA", "en_ZA", "en-za", "eN-Za", "und", "zh-Hans", "zh_hans", "sr-Latn-RS", "sr_latn_rs", "iw", "", "e", "en-", "de-1996", "DE-1996"];
fn gen_y02(r: &mut Rng, i: u64) -> Value {
    if let Some(v) = single(r, i, &["R01", "R02", "C01"]) { return v; }
    let n = 2 + r.below(3);
    let tags = r.chance(1, 2);
    let pool: Vec<Value> = (0..1 + r.below(5)).map(|_| if tags { json!([r.pick(&["tag", "tag", "list"]), r.pick(RTAGS)]) } else { json!([r.pick(&["insert", "insert", "command", "list"]), r.pick(p_command::NAMES)]) }).collect();
    let threads: Vec<Vec<Value>> = (0..n).map(|_| (0..1 + r.below(5)).map(|_| r.pick(&pool).clone()).collect()).collect();
    json!({"kind": if tags { "tags" } else { "commands" }, "threads": threads, "rounds": 5 + r.below(20)})
}
fn check_y02(v: &Value) -> Check {
    if let Some(c) = check_single(v) { return c; }
    let ts = lists(v)?;
    for x in ts.iter().flat_map(|t| t.iter()) { x[0].as_str().ok_or("bad case: op")?; x[1].as_str().ok_or("bad case: op")?; }
    if v["kind"] == "tags" { tags_rounds(&ts, rounds(v))?; } else { commands_rounds(&ts, rounds(v))?; }
    Ok(ts.len() > 1)
}
type G = (String, Result<Rc<i18n_utility::LanguageTag>, String>);
fn tags_rounds(ts: &[&Vec<Value>], rounds: u64) -> Result<(), String> {
    let regs: Vec<LanguageTagRegistry> = (0..rounds).map(|_| LanguageTagRegistry::new()).collect();
    let mut got: Vec<_> = together(ts.len(), rounds, |round, k| {
        let reg = &regs[round as usize];
        let mut a: Vec<G> = vec![];
        for x in ts[k] {
            let t = x[1].as_str().unwrap();
            if x[0] == "list" { for t in reg.list() { a.push((t.as_str().to_string(), Ok(t))); } let _ = reg.list_deprecated(); continue; }
            a.push((t.to_string(), reg.tag(t).map_err(|e| format!("{e:?}"))));
        }
        a
    })?.into_iter().map(|g| g.into_iter()).collect();
    for (round, reg) in regs.iter().enumerate() { tags_round(reg, round, got.iter_mut().map(|g| g.next().unwrap_or_default()).collect())?; }
    Ok(())
}
fn tags_round(reg: &LanguageTagRegistry, round: usize, got: Vec<Vec<G>>) -> Result<(), String> {
    let alone = LanguageTagRegistry::new();
    let mut asked: BTreeMap<String, Rc<i18n_utility::LanguageTag>> = BTreeMap::new();
    let (mut all, mut dep) = (vec![], vec![]);
    for (k, g) in got.into_iter().enumerate() {
        for (t, a) in g {
            let w = alone.tag(&t);
            match (a, w) {
                (Ok(a), Ok(w)) => {
                    let c = w.as_str().to_string();
                    if a.as_str() != c { return Err(format!("round {round}, thread {k}: tag({t:?}) is {:?}, alone {c:?}", a.as_str())); }
                    if asked.get(&c).is_some_and(|b| !Rc::ptr_eq(&a, b)) { return Err(format!("round {round}, thread {k}: tag({t:?}) is another instance of {c:?}")); }
                    all.push(c.clone());
                    if t != c { dep.push(t); }
                    asked.insert(c, a);
                }
                (Err(a), Err(w)) => if a != format!("{w:?}") { return Err(format!("round {round}, thread {k}: tag({t:?}) fails with {a}, alone with {w:?}")); },
                (a, w) => return Err(format!("round {round}, thread {k}: tag({t:?}) is {a:?}, alone {w:?}")),
            }
        }
    }
    for (c, a) in &asked {
        match reg.tag(c) { Ok(b) if Rc::ptr_eq(a, &b) => {} x => return Err(format!("round {round}, after the threads: tag({c:?}) is another instance: {x:?}")) }
    }
    let mut l: Vec<String> = reg.list().iter().map(|t| t.as_str().to_string()).collect();
    l.sort(); all.sort(); all.dedup();
    if l != all { return Err(format!("round {round}: the registry lists {l:?}, requested were {all:?}")); }
    let mut l: Vec<String> = reg.list_deprecated().iter().map(|t| t.as_str().to_string()).collect();
    l.sort(); l.dedup();
    let _ = dep;
    let mut w: Vec<String> = alone.list_deprecated().iter().map(|t| t.as_str().to_string()).collect();
    w.sort(); w.dedup();
    if l != w { return Err(format!("round {round}: the deprecated tags are {l:?}, alone {w:?}")); }
    Ok(())
}
type C = (String, String, String);
fn commands_rounds(ts: &[&Vec<Value>], rounds: u64) -> Result<(), String> {
    let regs: Vec<CommandRegistry> = (0..rounds).map(|_| CommandRegistry::new()).collect();
    // thread k registers function k (of four)
    let mut got: Vec<_> = together(ts.len(), rounds, |round, k| {
        let reg = &regs[round as usize];
        let mut a: Vec<C> = vec![];
        for x in ts[k] {
            let n = x[1].as_str().unwrap();
            let r = match x[0].as_str().unwrap() {
                "insert" => match reg.insert(n, p_command::FS[k % 4]) { Ok(()) => "ok".to_string(), Err(e) => format!("{e:?}") },
                "list" => { let mut l = reg.list(); l.sort(); l.join("\u{1}") }
                _ => match reg.command(n) { Ok(f) => f(vec![]).unwrap(), Err(e) => format!("{e:?}") },
            };
            a.push((x[0].as_str().unwrap().into(), n.into(), r));
        }
        a
    })?.into_iter().map(|g| g.into_iter()).collect();
    for (round, reg) in regs.iter().enumerate() { commands_round(reg, round, got.iter_mut().map(|g| g.next().unwrap_or_default()).collect())?; }
    Ok(())
}
fn commands_round(reg: &CommandRegistry, round: usize, got: Vec<Vec<C>>) -> Result<(), String> {
    let mut owner: BTreeMap<String, usize> = BTreeMap::new();
    for (k, g) in got.iter().enumerate() { for (op, n, r) in g { if op == "insert" && r == "ok" { if let Some(o) = owner.insert(n.clone(), k) { return Err(format!("round {round}: threads {o} and {k} both registered {n:?}")); } } } }
    for (k, g) in got.iter().enumerate() {
        let mut mine: BTreeMap<String, ()> = BTreeMap::new();
        for (op, n, r) in g {
            match op.as_str() {
                "insert" => {
                    if r != "ok" && *r != format!("{:?}", i18n_localiser::CommandError::AlreadyExists(n.clone())) { return Err(format!("round {round}, thread {k}: insert({n:?}) gives {r}")); }
                    if !owner.contains_key(n) { return Err(format!("round {round}: every thread failed to register {n:?}")); }
                    mine.insert(n.clone(), ());
                }
                "list" => {
                    let l: Vec<&str> = if r.is_empty() && !mine.contains_key("") && !owner.contains_key("") { vec![] } else { r.split('\u{1}').collect() };
                    if let Some(x) = mine.keys().find(|x| !l.contains(&x.as_str())) { return Err(format!("round {round}, thread {k}: list lacks {x:?}")); }
                    if let Some(x) = l.iter().find(|x| !x.is_empty() && !owner.contains_key(**x)) { return Err(format!("round {round}, thread {k}: list has {x:?}")); }
                }
                _ => {
                    let f = owner.get(n).map(|o| format!("f{}", o % 4));
                    let none = format!("{:?}", i18n_localiser::CommandError::NotFound(n.clone()));
                    if !(f.as_ref() == Some(r) || *r == none && !mine.contains_key(n)) { return Err(format!("round {round}, thread {k}: command({n:?}) gives {r}, registered is {f:?}")); }
                    if *r != none { mine.insert(n.clone(), ()); }
                }
            }
        }
    }
    for n in p_command::NAMES {
        match (reg.command(n), owner.get(*n)) { (Ok(f), Some(o)) if f(vec![]).unwrap() == format!("f{}", o % 4) => {} (Err(_), None) => {} (a, o) => return Err(format!("round {round}, after the threads: command({n:?}) gives {:?}, registered by {o:?}", a.map(|f| f(vec![])))) }
    }
    Ok(())
}

// ----- Y03: the repository -----
fn gen_y03(r: &mut Rng, i: u64) -> Value {
    if let Some(v) = single(r, i, &["P01", "P02", "P03", "P04", "P05"]) { return v; }
    // half of the cases: few requests of different kinds on many new providers; some of the others: two or three
    // requests, asked again and again by many threads
    let cold = r.chance(1, 2);
    let warm = !cold && r.chance(1, 2);
    let n = if warm { 4 + r.below(5) } else { 2 + r.below(3) };
    // details take long with many languages
    let mut names = p_provider::few();
    let small = r.chance(3, 4);
    if small { names.tags.truncate(3 + r.below(3)); names.comps.truncate(1 + r.below(2)); }
    let kinds: &[&str] = if warm || r.chance(1, 2) { &["string", "strings", "exact"] } else { &["string", "strings", "exact", "component", "repository", "identifier"] };
    let pool: Vec<Value> = (0..if cold { 2 + r.below(4) } else if warm { 2 + r.below(2) } else { 1 + r.below(6) }).map(|_| {
        let c = if r.chance(1, 12) { "nope".to_string() } else { r.pick(&names.comps).clone() };
        json!([r.pick(kinds), c, r.pick(p_provider::IDS), if small && r.chance(3, 4) { r.pick(&names.tags) } else { r.pick(p_provider::RTAGS) }])
    }).collect();
    let threads: Vec<Vec<Value>> = (0..n).map(|_| (0..if warm { 20 + r.below(40) } else { 1 + r.below(if cold { 3 } else { 4 }) }).map(|_| r.pick(&pool).clone()).collect()).collect();
    json!({"repo": p_provider::gen_repo(r, &names, true), "threads": threads, "rounds": if cold { 6 + r.below(12) } else { 2 }})
}
fn check_y03(v: &Value) -> Check {
    if let Some(c) = check_single(v) { return c; }
    let ts = lists(v)?;
    let (d, alone) = p_provider::provider(&v["repo"])?;
    let q = |x: &Value| -> Result<(String, String, String, String), String> {
        let g = |k: usize| x.get(k).and_then(|y| y.as_str()).map(|y| y.to_string()).ok_or("bad case: query".to_string());
        let t = g(3)?;
        if !p_provider::RTAGS.contains(&t.as_str()) { return Err("bad case: tag".into()); }
        Ok((g(0)?, g(1)?, g(2)?, t))
    };
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for x in ts.iter().flat_map(|t| t.iter()) { want.insert(x.to_string(), p_provider::answer(&alone, &q(x)?)); }
    let ps = (0..rounds(v)).map(|_| p_provider::reopen(&d)).collect::<Result<Vec<_>, String>>()?;
    let got = together(ts.len(), rounds(v), |round, k| -> Result<Vec<String>, String> { ts[k].iter().map(|x| Ok(p_provider::answer(&ps[round as usize], &q(x)?))).collect() })?;
    for (k, g) in got.into_iter().enumerate() {
        for (round, g) in g.into_iter().enumerate() {
            for (j, a) in g?.into_iter().enumerate() {
                let w = &want[&ts[k][j].to_string()];
                if a != *w { return Err(format!("round {round}, thread {k}, {}: gives {a}, alone it gives {w}", ts[k][j])); }
            }
        }
    }
    for (round, p) in ps.iter().enumerate().take(2) {
        for x in ts.iter().flat_map(|t| t.iter()) {
            let a = p_provider::answer(p, &q(x)?);
            if a != want[&x.to_string()] { return Err(format!("round {round}, after the threads, {x}: gives {a}, expected {}", want[&x.to_string()])); }
        }
    }
    Ok(ts.len() > 1)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "Y01", rule: "2-4 threads share a localiser (feature sync) and format, get literals, nested data and set defaults; every result is one the call gives alone; K01-K04 in this build", gen: gen_y01, check: check_y01 },
        Prop { id: "Y02", rule: "2-4 threads share a tag or command registry (feature sync): one instance of a tag, one registration of a command; R01, R02, C01 in this build", gen: gen_y02, check: check_y02 },
        Prop { id: "Y03", rule: "2-4 threads share a sqlite3 repository (feature sync); every answer is the one given alone; P01-P05 in this build", gen: gen_y03, check: check_y03 },
    ]
}
