//! K01-K04: the localiser with a mock repository
use crate::{model::{self, Mock, Out}, rng::Rng, Check, Prop};
use i18n_localiser::{Localiser, LocaliserError};
use i18n_provider::ProviderError;
use i18n_utility::{LocalisationData, LocalisationErrorTrait, LocalisationTrait, PlaceholderValue};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use crate::fixtures::Rc;

const COMPS: &[&str] = &["c", "d", "c/i"];
const IDS: &[&str] = &["i", "j", "i/i", "k"];
pub const TAGS: &[&str] = &["en", "fr", "en-ZA", "de", "en-GB", "fr-CA", "zh-Hans", "sr-Latn-RS", "ar", "enm", "und", "de-1996"];
/// the names in a case
pub struct Names { comps: Vec<String>, ids: Vec<String>, pub tags: Vec<&'static str> }
pub fn few() -> Names { Names { comps: COMPS.iter().map(|x| x.to_string()).collect(), ids: IDS.iter().map(|x| x.to_string()).collect(), tags: TAGS[..4].to_vec() } }
pub fn names(r: &mut Rng) -> Names {
    let mut n = few();
    // names that are the same when joined with some separator
    if r.chance(1, 3) {
        let s = *r.pick(&["", ".", "|", ":", "::", " ", "\0", "-", "_", ",", "#", "\u{1}", "en", "/en/"]);
        n.comps[2] = format!("c{s}i");
        n.ids[2] = format!("i{s}i");
    }
    if !r.chance(1, 15) { return n; }
    for _ in 0..1 + r.below(6) { let x = model::any_text(r); if !n.comps.contains(&x) { n.comps.push(x); } }
    for _ in 0..1 + r.below(25) { let x = model::any_text(r); if !n.ids.contains(&x) { n.ids.push(x); } }
    n.tags = TAGS.to_vec();
    n
}
const STRINGS: &[&str] = &["", "plain", "A {p}", "B {p} {`lit`}", "C {n plural one#o other#t}#{o one}{t # many}", "D `{", "}", "E {#join# p}", "F {q}", "G {d decimal sign#no}", "H {p}{n decimal}", "{#join x}"];

pub fn gen_repo(r: &mut Rng, n: &Names, faults: bool) -> Value {
    let mut strings = vec![];
    for c in &n.comps { for i in &n.ids { for t in &n.tags {
        if r.chance(1, 2) {
            let s = if r.chance(1, 40) { model::any_text(r) } else if r.chance(1, 40) { STRINGS[2].repeat(1 + r.below(300)).replacen("{p}", "{ q }", 1).replace("{p}", "`{") } else { r.pick(STRINGS).to_string() };
            strings.push(json!([c, i, t, s, if r.chance(2, 3) { t } else { r.pick(&n.tags) }]));
        }
    } } }
    let default: Map<String, Value> = n.comps.iter().filter(|_| r.chance(5, 6)).map(|c| c.to_string()).collect::<Vec<_>>().into_iter().map(|c| { let t = json!(if n.tags.len() > 4 { *r.pick(&n.tags) } else { TAGS[c.len() % 2] }); (c, t) }).collect();
    let mut f = vec![];
    if faults {
        for c in &n.comps {
            if r.chance(1, 8) { f.push(format!("details {c}")); }
            for i in &n.ids { for t in &n.tags { if r.chance(1, 12) { f.push(format!("string {c}|{i}|{t}")); } } }
        }
    }
    json!({"strings": strings, "default": default, "faults": f})
}
pub fn repo(v: &Value) -> Result<Mock, String> {
    let m = Mock::default();
    {
        let mut r = m.0.borrow_mut();
        for s in v["strings"].as_array().ok_or("bad case")? {
            let g = |k: usize| s.get(k).and_then(|x| x.as_str()).map(|x| x.to_string()).ok_or("bad case: string".to_string());
            if !TAGS.contains(&g(4)?.as_str()) { return Err("bad case: tag".into()); }
            r.strings.insert((g(0)?, g(1)?, g(2)?), (g(3)?, g(4)?));
        }
        for (k, t) in v["default"].as_object().ok_or("bad case")? {
            let t = t.as_str().ok_or("bad case")?;
            if !TAGS.contains(&t) { return Err("bad case: tag".into()); }
            r.default.insert(k.clone(), t.into());
        }
        for f in v["faults"].as_array().ok_or("bad case")? { r.faults.insert(f.as_str().ok_or("bad case")?.into()); }
    }
    Ok(m)
}
fn gen_vals(r: &mut Rng) -> Value {
    let mut m = Map::new();
    if r.chance(5, 6) { m.insert("p".into(), if r.chance(1, 6) { model::gen_value(r) } else { json!({"s": r.pick(&["x", "y", ""])}) }); }
    if r.chance(5, 6) { m.insert("n".into(), if r.chance(1, 6) { model::gen_number(r) } else { json!({"u": r.below(4)}) }); }
    if r.chance(1, 3) { m.insert("q".into(), json!({"l": ["q", "fr"]})); }
    Value::Object(m)
}
fn opt(r: &mut Rng) -> Value { match r.below(3) { 0 => Value::Null, 1 => json!(true), _ => json!(false) } }
pub fn gen_op(r: &mut Rng, n: &Names) -> Value {
    json!([r.pick(&["format", "format", "literal"]), r.pick(&n.comps), r.pick(&n.ids), r.pick(&n.tags), opt(r), opt(r), gen_vals(r)])
}
pub struct Op { pub kind: String, c: String, i: String, pub t: String, pub fb: Option<bool>, pub ca: Option<bool>, v: HashMap<String, PlaceholderValue> }
pub fn op(v: &Value) -> Result<Op, String> {
    let g = |k: usize| v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string()).ok_or("bad case: op".to_string());
    let t = g(3)?;
    if !TAGS.contains(&t.as_str()) { return Err("bad case: tag".into()); }
    Ok(Op { kind: g(0)?, c: g(1)?, i: g(2)?, t, fb: v.get(4).and_then(|x| x.as_bool()), ca: v.get(5).and_then(|x| x.as_bool()), v: model::values(v.get(6).ok_or("bad case: op")?)? })
}
pub fn run(l: &Localiser, o: &Op) -> Out {
    let t = model::tag(&o.t);
    let d = || LocalisationData { component: o.c.clone(), identifier: o.i.clone(), values: Some(o.v.clone()) };
    match o.kind.as_str() {
        "data" => return model::out(l.format_localisation_data(&d(), &t, o.fb, o.ca)),
        "formatd" => return model::out(l.format_with_defaults(&o.c, &o.i, &o.v)),
        "literald" => return model::out(l.literal_with_defaults(&o.c, &o.i)),
        "datad" => return model::out(l.format_localisation_data_with_defaults(&d())),
        _ => {}
    }
    model::out(if o.kind == "literal" { l.literal(&o.c, &o.i, &t, o.fb, o.ca) } else { l.format(&o.c, &o.i, &o.v, &t, o.fb, o.ca) })
}
pub fn desc(o: &Out) -> String { match o { Ok(x) => format!("{x:?}"), Err(e) => format!("error {e:?}") } }

fn gen_k01(r: &mut Rng, _: u64) -> Value {
    let w = names(r);
    let n = if w.ids.len() > 12 { 20 + r.below(100) } else { 2 + r.below(10) };
    let mut ops: Vec<Value> = (0..n).map(|_| gen_op(r, &w)).collect();
    // repeats of an earlier request with one aspect changed
    for _ in 0..if n > 12 { n } else { r.below(5) } {
        let mut o = ops[r.below(ops.len())].clone();
        match r.below(7) { 0 => o[0] = json!("literal"), 1 => o[0] = json!("format"), 2 => o[4] = opt(r), 3 => o[3] = json!(r.pick(&w.tags)), 4 => o[6] = gen_vals(r), 5 => { o[1] = json!(r.pick(&w.comps)); o[2] = json!(r.pick(&w.ids)) } _ => o[5] = opt(r) }
        ops.push(o);
    }
    json!({"repo": gen_repo(r, &w, false), "fallback": r.chance(1, 2), "caching": r.chance(2, 3), "ops": ops})
}
fn check_k01(v: &Value) -> Check {
    let m = repo(&v["repo"])?;
    let fb = v["fallback"].as_bool().ok_or("bad case")?;
    let l = model::localiser(&m, fb, v["caching"].as_bool().ok_or("bad case")?, "en")?;
    let plain = model::localiser(&m, fb, false, "en")?;
    let mut nt = false;
    for (k, x) in v["ops"].as_array().ok_or("bad case")?.iter().enumerate() {
        let mut o = op(x)?;
        m.0.borrow_mut().calls.clear();
        let got = run(&l, &o);
        nt |= m.0.borrow().calls.is_empty();
        o.ca = Some(false);
        let want = run(&plain, &o);
        if desc(&got) != desc(&want) { return Err(format!("request {k} {x} gives {}, without caching {}", desc(&got), desc(&want))); }
    }
    if m.0.borrow().calls.iter().any(|c| c == "exact" || c == "strings") { return Ok(false); }
    Ok(nt)
}
fn gen_k02(r: &mut Rng, _: u64) -> Value { let f = r.chance(1, 2); let w = names(r); json!({"repo": gen_repo(r, &w, f), "op": gen_op(r, &w), "fallback": r.chance(1, 2)}) }
fn check_k02(v: &Value) -> Check {
    let m = repo(&v["repo"])?;
    let o = op(&v["op"])?;
    let fbd = v["fallback"].as_bool().ok_or("bad case")?;
    let l = model::localiser(&m, fbd, false, "de")?;
    let fb = o.fb.unwrap_or(fbd);
    let got = run(&l, &o);
    let rp = m.0.borrow();
    // expected
    enum W { Str(String, String), NotFound(bool), Fault(String), NoComp }
    let find = |t: &str| -> Result<Option<(String, String)>, W> {
        let call = format!("string {}|{}|{t}", o.c, o.i);
        if rp.faults.contains(&call) { return Err(W::Fault(call)); }
        Ok(rp.strings.get(&(o.c.clone(), o.i.clone(), t.to_string())).cloned())
    };
    let w = (|| -> Result<W, W> {
        if let Some((s, t)) = find(&o.t)? { return Ok(W::Str(s, t)); }
        if !fb { return Ok(W::NotFound(false)); }
        let call = format!("details {}", o.c);
        if rp.faults.contains(&call) { return Err(W::Fault(call)); }
        let Some(d) = rp.default.get(&o.c) else { return Ok(W::NoComp) };
        Ok(match find(d)? { Some((s, t)) => W::Str(s, t), None => W::NotFound(true) })
    })();
    let w = match w { Ok(x) | Err(x) => x };
    let bad = |e: String| Err(format!("{} gives {}, expected {e}", v["op"], desc(&got)));
    match (w, &got) {
        (W::Str(s, t), r) => {
            if o.kind == "literal" {
                match r { Ok((a, b)) if *a == s && *b == t => Ok(true), _ => bad(format!("{s:?} of {t}")) }
            } else {
                let want = model::format(&s, &t, &o.v)?;
                if desc(&want) == desc(r) { Ok(true) } else { bad(format!("{s:?} of {t} formatted: {}", desc(&want))) }
            }
        }
        (W::NotFound(f), Err(LocaliserError::StringNotFound(c, i, t, x))) if *c == o.c && *i == o.i && *t == o.t && *x == f => Ok(true),
        (W::NotFound(f), _) => bad(format!("StringNotFound({}, {}, {}, {f})", o.c, o.i, o.t)),
        (W::Fault(call), Err(LocaliserError::Provider(ProviderError::InvalidDefaultLanguage(x)))) if *x == call => Ok(true),
        (W::Fault(call), _) => bad(format!("the error of the repository for {call:?}")),
        (W::NoComp, Err(LocaliserError::Provider(ProviderError::ComponentNotFound(x)))) if *x == o.c => Ok(true),
        (W::NoComp, _) => bad("component not found".into()),
    }
}
#[derive(Debug, Clone)]
struct E(LocalisationData);
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "E") } }
impl std::error::Error for E {}
impl LocalisationTrait for E { fn localisation_data(&self) -> LocalisationData { self.0.clone() } }
impl LocalisationErrorTrait for E {}

fn gen_k03(r: &mut Rng, _: u64) -> Value {
    let w = names(r);
    let n = if w.ids.len() > 12 { 20 + r.below(60) } else { 2 + r.below(10) };
    let mut repo = gen_repo(r, &w, false);
    // only strings that always format
    for s in repo["strings"].as_array_mut().unwrap() { let t = s[4].as_str().unwrap().to_string(); s[3] = json!(format!("{} {{p}} {}", s[0].as_str().unwrap().replace(['{', '}', '`', '#'], ""), t)); }
    let ops: Vec<Value> = (0..n).map(|_| if r.chance(1, 2) {
        json!(["set", if r.chance(1, 2) { json!(r.pick(&w.tags)) } else { Value::Null }, opt(r), opt(r)])
    } else {
        let k = *r.pick(&["format", "literal", "data", "error", "formatx", "literalx", "datax", "errorx"]);
        json!([k, r.pick(&w.comps), r.pick(&w.ids), r.pick(&w.tags), opt(r), opt(r), r.chance(1, 2)])
    }).collect();
    json!({"repo": repo, "lang": r.pick(&w.tags), "fallback": r.chance(1, 2), "caching": r.chance(1, 2), "ops": ops})
}
fn check_k03(v: &Value) -> Check {
    let m = repo(&v["repo"])?;
    let (mut lang, mut fb, mut ca) = (v["lang"].as_str().ok_or("bad case")?.to_string(), v["fallback"].as_bool().ok_or("bad case")?, v["caching"].as_bool().ok_or("bad case")?);
    if !TAGS.contains(&lang.as_str()) { return Err("bad case: tag".into()); }
    let l = model::localiser(&m, fb, ca, &lang)?;
    let plain = model::localiser(&m, false, false, "en")?;
    let mut nt = false;
    let mut touched: Vec<(String, String)> = vec![]; // strings that may have been cached
    let vals: HashMap<String, PlaceholderValue> = [("p".to_string(), PlaceholderValue::String("v".into()))].into();
    for (k, x) in v["ops"].as_array().ok_or("bad case")?.iter().enumerate() {
        let kind = x[0].as_str().ok_or("bad case")?;
        if kind == "set" {
            let t = x[1].as_str();
            if t.is_some_and(|t| !TAGS.contains(&t)) { return Err("bad case: tag".into()); }
            let (f, c) = (x.get(2).and_then(|y| y.as_bool()), x.get(3).and_then(|y| y.as_bool()));
            l.defaults(t.map(model::tag), f, c).map_err(|e| format!("op {k}: defaults fails: {e}"))?;
            if let Some(t) = t { lang = t.into(); }
            if let Some(f) = f { fb = f; }
            if let Some(c) = c { ca = c; }
        } else {
            let g = |i: usize| x.get(i).and_then(|y| y.as_str()).map(|y| y.to_string()).ok_or("bad case: op".to_string());
            let (c, i, t) = (g(1)?, g(2)?, g(3)?);
            if !TAGS.contains(&t.as_str()) { return Err("bad case: tag".into()); }
            let explicit = kind.ends_with('x');
            let (of, oc) = if explicit { (x.get(4).and_then(|y| y.as_bool()), x.get(5).and_then(|y| y.as_bool())) } else { (None, None) };
            let lit = kind.starts_with("literal");
            let data = LocalisationData { component: c.clone(), identifier: i.clone(), values: if x.get(6).and_then(|y| y.as_bool()).unwrap_or(true) { Some(vals.clone()) } else { None } };
            let tg = model::tag(&t);
            let once = || model::out(match kind {
                "format" => l.format_with_defaults(&c, &i, &vals),
                "literal" => l.literal_with_defaults(&c, &i),
                "data" => l.format_localisation_data_with_defaults(&data),
                "error" => l.format_error_with_defaults(&E(data.clone())),
                "formatx" => l.format(&c, &i, &vals, &tg, of, oc),
                "literalx" => l.literal(&c, &i, &tg, of, oc),
                "datax" => l.format_localisation_data(&data, &tg, of, oc),
                _ => l.format_error(&E(data.clone()), &tg, of, oc),
            });
            let (ef, ec, et) = (of.unwrap_or(fb), oc.unwrap_or(ca), if explicit { tg.clone() } else { model::tag(&lang) });
            let literal = lit || (!kind.starts_with("format") && data.values.is_none());
            let want = model::out(if literal { plain.literal(&c, &i, &et, Some(ef), Some(false)) } else { plain.format(&c, &i, &vals, &et, Some(ef), Some(false)) });
            m.0.borrow_mut().calls.clear();
            let got = once();
            let calls = m.0.borrow().calls.len();
            if desc(&got) != desc(&want) { return Err(format!("op {k} {x} with defaults {lang}, fallback {fb}, caching {ca} gives {}, expected {}", desc(&got), desc(&want))); }
            let key = (c.clone(), i.clone());
            if !touched.contains(&key) && calls == 0 { return Err(format!("op {k} {x}: string came from the cache although caching was never on for it")); }
            if ec { touched.push(key); }
            if ec && got.is_ok() {
                m.0.borrow_mut().calls.clear();
                let again = once();
                if desc(&again) != desc(&want) { return Err(format!("op {k} {x} repeated gives {}", desc(&again))); }
                if !m.0.borrow().calls.is_empty() { return Err(format!("op {k} {x}: caching is on but the repeated request is not cached")); }
            }
            nt |= got.is_ok();
        }
        if l.default_language().as_str() != lang { return Err(format!("op {k}: default language is {}, expected {lang}", l.default_language().as_str())); }
    }
    Ok(nt)
}
fn gen_data(r: &mut Rng, w: &Names, depth: usize) -> Value {
    if r.chance(1, if depth > 4 { 40 } else { 6 }) { return json!({"ld": [r.pick(&w.comps), r.pick(&w.ids), null]}); }
    let mut m = Map::new();
    for n in ["p", "q", "n"] {
        if !r.chance(2, 3) { continue; }
        let x = if depth > 0 && n != "n" && r.chance(1, 2) { gen_data(r, w, depth - 1) } else if n == "n" { json!({"u": r.below(3)}) } else { json!({"s": "x"}) };
        m.insert(n.into(), x);
    }
    if r.chance(1, 15) { for k in 0..r.below(20) { let x = if depth > 0 && depth < 4 && r.chance(1, 10) { gen_data(r, w, depth - 1) } else { model::gen_value(r) }; m.insert(format!("v{k}"), x); } }
    if r.chance(1, 15) { m.insert(r.pick(&["P", "Q", "p ", "é", ""]).to_string(), json!({"s": "X"})); }
    if depth > 4 && m.is_empty() { m.insert("p".into(), gen_data(r, w, depth - 1)); }
    json!({"ld": [r.pick(&w.comps), r.pick(&w.ids), m]})
}
fn gen_k04(r: &mut Rng, _: u64) -> Value {
    let w = names(r);
    let mut repo = gen_repo(r, &w, false);
    let depth = if r.chance(1, 30) { 12 } else { 3 };
    for s in repo["strings"].as_array_mut().unwrap() { if r.chance(3, 4) { s[3] = json!(r.pick(&["<{p}>", "<{p} {q}>", "<{P}>", "<{#join# P p é}>", "lit", "", "<{#join# p q}>", "{p select x#a other#b}#{a A}{b B{q}}"])); } }
    json!({"repo": repo, "data": gen_data(r, &w, depth), "tag": r.pick(&w.tags), "fb": r.chance(2, 3), "ca": r.chance(1, 2), "err": r.chance(1, 3)})
}
fn reference(plain: &Localiser, d: &LocalisationData, t: &str, fb: bool) -> Result<(Rc<String>, Rc<i18n_utility::LanguageTag>), LocaliserError> {
    let tg = model::tag(t);
    let Some(v) = &d.values else { return plain.literal(d.component.as_str(), d.identifier.as_str(), &tg, Some(fb), Some(false)) };
    let mut nv = HashMap::new();
    for (k, x) in v {
        nv.insert(k.clone(), match x {
            PlaceholderValue::LocalisationData(i) => { let (s, t) = reference(plain, i, t, fb)?; PlaceholderValue::Localised(s, t) }
            y => y.clone(),
        });
    }
    plain.format(d.component.as_str(), d.identifier.as_str(), &nv, &tg, Some(fb), Some(false))
}
fn check_k04(v: &Value) -> Check {
    let m = repo(&v["repo"])?;
    let PlaceholderValue::LocalisationData(d) = model::value(&v["data"])? else { return Err("bad case".into()) };
    let t = v["tag"].as_str().ok_or("bad case")?;
    if !TAGS.contains(&t) { return Err("bad case: tag".into()); }
    let (fb, ca) = (v["fb"].as_bool().ok_or("bad case")?, v["ca"].as_bool().ok_or("bad case")?);
    let l = model::localiser(&m, !fb, !ca, "de")?;
    let plain = model::localiser(&m, false, false, "en")?;
    let want = model::out(reference(&plain, &d, t, fb));
    let tg = model::tag(t);
    for round in 0..2 {
        let got = model::out(if v["err"].as_bool().unwrap_or(false) { l.format_error(&E(d.clone()), &tg, Some(fb), Some(ca)) } else { l.format_localisation_data(&d, &tg, Some(fb), Some(ca)) });
        // which of several errors is reported is not specified
        if got.is_err() && want.is_err() { continue; }
        if desc(&got) != desc(&want) { return Err(format!("round {round}: gives {}, expected {}", desc(&got), desc(&want))); }
    }
    Ok(d.values.is_some_and(|v| v.values().any(|x| matches!(x, PlaceholderValue::LocalisationData(_)))))
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "K01", rule: "random repositories (3 components, 4 identifiers, 4 languages; now and then up to 9, 29, 12) and histories of 2-15 (240) requests, each compared with a localiser that does not cache; non-trivial: a request answered from the cache", gen: gen_k01, check: check_k01 },
        Prop { id: "K02", rule: "random repositories with missing strings and injected repository errors, one request, result predicted from the repository; every case is non-trivial", gen: gen_k02, check: check_k02 },
        Prop { id: "K03", rule: "histories of 2-11 (now and then 80) changes of defaults and requests through all request methods, caching observed by the calls made to the repository; non-trivial: a successful request", gen: gen_k03, check: check_k03 },
        Prop { id: "K04", rule: "random localisation data nested up to 4 (now and then 13) deep, compared with formatting from the inside out by separate requests; non-trivial: nested data", gen: gen_k04, check: check_k04 },
    ]
}
