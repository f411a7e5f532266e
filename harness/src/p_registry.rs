use crate::{rng::Rng, Check, Prop};
use i18n_utility::{Direction, LanguageTagRegistry, LanguageTag, ScriptDirection, TaggedString, RegistryError};
use icu_locid::LanguageIdentifier;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use crate::fixtures::Rc;

const TAGS: &[&str] = &["en", "EN", "en-ZA", "en_ZA", "en-za", "EN_za", "eN-Za", "en-US", "en_US", "und", "UND", "sr-Latn-RS", "sr_latn_rs", "SR-LATN-rs", "zh-Hans", "zh_hans", "zh-HANS-CN", "de-1996", "DE-1996", "ca-valencia", "ca_ES_valencia", "hnfg_lku", "", "-", "e", "en-", "-en", "en--ZA", "123", "en-ZA-ZA", "en-u-ca-buddhist", "en ZA", "engb", "enm", "de-1996-1901", "de-1901-1996", "root", "iw", "en-Latn", "en_LATN_us", "é", "x-private", "en-x-private", "sl-rozaj-biske", "sl-biske-rozaj"];

/// a well formed tag most of the time, in any spelling
pub fn any_tag(r: &mut Rng) -> String {
    let word = |r: &mut Rng, n: usize, first_digit: bool| -> String {
        (0..n).map(|k| if k == 0 && first_digit { *r.pick(&['1', '9', '0']) } else { (b'a' + r.below(26) as u8) as char }).collect()
    };
    let n = 2 + r.below(2);
    let mut t = vec![if r.chance(1, 10) { "und".to_string() } else { word(r, n, false) }];
    if r.chance(1, 3) { t.push(if r.chance(1, 2) { r.pick(&["Latn", "Cyrl", "Arab", "Hans"]).to_string() } else { word(r, 4, false) }); }
    if r.chance(1, 2) { t.push(if r.chance(1, 4) { format!("{:03}", r.below(1000)) } else { word(r, 2, false) }); }
    for _ in 0..if r.chance(1, 4) { 1 + r.below(3) } else { 0 } { let n = 5 + r.below(4); t.push(if r.chance(1, 3) { word(r, 4, true) } else { word(r, n, false) }); }
    let (sep, case) = (r.below(4), r.below(4));
    let mut s = t[0].clone();
    for x in &t[1..] { s.push(match sep { 0 => '_', 1 => *r.pick(&['-', '_']), _ => '-' }); s.push_str(x); }
    match case { 0 => s.to_uppercase(), 1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), 2 => s.to_lowercase(), _ => s }
}
fn gen(r: &mut Rng, i: u64) -> Value {
    let n = TAGS.len() as u64;
    // all pairs first
    if i < n * n { return json!({"ops": [["tag", TAGS[(i / n) as usize]], ["tag", TAGS[(i % n) as usize]]]}); }
    let k = if r.chance(1, 150) { 100 + r.below(300) } else { 1 + r.below(14) };
    let mut made: Vec<String> = vec![];
    let ops: Vec<Value> = (0..k).map(|_| {
        let t: String = if r.chance(1, 12) {
            let m = r.below(9);
            (0..m).map(|_| *r.pick(&['a', 'e', 'n', 'N', 'Z', 'z', '-', '_', '1', '9', 'x'])).collect()
        } else if r.chance(1, 3) {
            // now and then another spelling of an earlier one
            if !made.is_empty() && r.chance(1, 2) { let t = r.pick(&made).clone(); match r.below(5) { 0 => t.to_uppercase(), 1 => t.to_lowercase(), 2 => t.replace('-', "_"), 3 => canon(&t).unwrap_or(t), _ => t } } else { let t = any_tag(r); made.push(t.clone()); t }
        } else { r.pick(TAGS).to_string() };
        let t = if r.chance(1, 40) { match r.below(4) { 0 => format!(" {t}"), 1 => format!("{t} "), 2 => format!("{t}-"), _ => format!("{t}\n") } } else { t };
        let op = *r.pick(&["tag", "tag", "tag", "icu"]);
        json!([op, t])
    }).collect();
    json!({"ops": ops})
}
fn canon(t: &str) -> Result<String, icu_locid::ParserError> { LanguageIdentifier::canonicalize(t) }
fn strs(v: Vec<Rc<LanguageTag>>) -> Vec<String> { let mut x: Vec<String> = v.iter().map(|t| t.as_str().to_string()).collect(); x.sort(); x }

fn check_r01(v: &Value) -> Check {
    let reg = LanguageTagRegistry::new();
    let mut nt = false;
    for (k, op) in v["ops"].as_array().unwrap().iter().enumerate() {
        let t = op[1].as_str().unwrap();
        let before = (strs(reg.list()), strs(reg.list_deprecated()));
        match (reg.tag(t), canon(t)) {
            (Ok(a), Ok(b)) => { if a.as_str() != b { return Err(format!("op {k}: tag({t:?}) gave {:?}, canonical form is {b:?}", a.as_str())); } nt |= k > 0; }
            (Err(RegistryError::LanguageIdentifier(a)), Err(b)) => {
                if a != b { return Err(format!("op {k}: tag({t:?}) gave error {a:?} instead of {b:?}")); }
                if before != (strs(reg.list()), strs(reg.list_deprecated())) { return Err(format!("op {k}: rejected tag({t:?}) changed the registry")); }
            }
            (a, b) => return Err(format!("op {k}: tag({t:?}) gave {a:?}, ICU gives {b:?}")),
        }
    }
    Ok(nt)
}
fn check_r02(v: &Value) -> Check {
    let reg = LanguageTagRegistry::new();
    let mut seen: BTreeMap<String, Rc<LanguageTag>> = BTreeMap::new();
    let mut dep: BTreeMap<String, String> = BTreeMap::new();
    let mut nt = false;
    for (k, op) in v["ops"].as_array().unwrap().iter().enumerate() {
        let t = op[1].as_str().unwrap();
        let Ok(tag) = reg.tag(t) else { continue };
        let Ok(c) = canon(t) else { return Err(format!("op {k}: {t:?} accepted")) };
        if let Some(p) = seen.get(&c) {
            nt = true;
            if !Rc::ptr_eq(p, &tag) { return Err(format!("op {k}: tag({t:?}) is another instance of {c}")); }
        }
        seen.insert(c.clone(), tag.clone());
        if t != c { dep.insert(t.to_string(), c.clone()); }
        if op[0] == "icu" {
            let l = reg.icu_language(&tag);
            if l.to_string() != c { return Err(format!("op {k}: icu_language({c}) is {l}")); }
            if tag.icu_language().to_string() != c { return Err(format!("op {k}: LanguageTag::icu_language of {c}")); }
        }
        let want: Vec<String> = seen.keys().cloned().collect();
        if strs(reg.list()) != want { return Err(format!("op {k}: list {:?}, expected {want:?}", strs(reg.list()))); }
        let mut wd: Vec<String> = dep.values().cloned().collect();
        wd.sort();
        if strs(reg.list_deprecated()) != wd { return Err(format!("op {k}: deprecated list {:?}, expected {wd:?}", strs(reg.list_deprecated()))); }
        let mut wa: Vec<String> = want.iter().cloned().chain(wd.iter().cloned()).collect();
        wa.sort();
        if strs(reg.list_all()) != wa { return Err(format!("op {k}: list_all {:?}, expected {wa:?}", strs(reg.list_all()))); }
        for l in reg.list().iter().chain(reg.list_deprecated().iter()) {
            if !Rc::ptr_eq(l, &seen[l.as_str()]) { return Err(format!("op {k}: listing has another instance of {}", l.as_str())); }
        }
    }
    Ok(nt)
}
fn gen_s(r: &mut Rng, i: u64) -> Value {
    let n = if r.chance(1, 100) { r.below(3000) } else { r.below(12) };
    let any = r.chance(1, 3);
    let s: String = (0..n).map(|_| if any { crate::p_lexer::any_char(r) } else { *r.pick(&['a', ' ', 'é', '{', '中', '\u{0}', '😀']) }).collect();
    json!({"i": i % 8, "text": s, "tag": r.pick(&["en", "en-ZA", "ar", "und", "zh-Hant-TW", "de-1996"])})
}
fn check_s01(v: &Value) -> Check {
    use Direction::*;
    use ScriptDirection::*;
    let all: [(ScriptDirection, Direction, Direction); 8] = [
        (TopToBottomLeftToRight, TopToBottom, LeftToRight), (TopToBottomRightToLeft, TopToBottom, RightToLeft),
        (BottomToTopLeftToRight, BottomToTop, LeftToRight), (BottomToTopRightToLeft, BottomToTop, RightToLeft),
        (LeftToRightTopToBottom, LeftToRight, TopToBottom), (LeftToRightBottomToTop, LeftToRight, BottomToTop),
        (RightToLeftTopToBottom, RightToLeft, TopToBottom), (RightToLeftBottomToTop, RightToLeft, BottomToTop)];
    let (d, l, g) = &all[v["i"].as_u64().unwrap() as usize % 8];
    if d.line() != *l || d.grapheme() != *g || d.directions() != (l.clone(), g.clone()) {
        return Err(format!("{d:?}: line {:?}, grapheme {:?}, directions {:?}", d.line(), d.grapheme(), d.directions()));
    }
    let reg = LanguageTagRegistry::new();
    let tag = reg.tag(v["tag"].as_str().unwrap()).unwrap();
    let t = v["text"].as_str().unwrap();
    let ts = TaggedString::new(t, &tag);
    if ts.as_str() != t || ts.as_string() != t || ts.to_string() != t || !Rc::ptr_eq(ts.tag(), &tag) {
        return Err(format!("tagged string of {t:?} gives {:?} {:?}", ts.as_str(), ts.tag()));
    }
    let c = ts.clone();
    if c != ts || c.as_str() != t { return Err("clone differs".into()); }
    Ok(true)
}
pub fn props() -> Vec<Prop> {
    let rule = "all ordered pairs of 45 canonical, non-canonical and malformed tags, then random histories of up to 14 (now and then 400) requests for these and for random well formed tags in any spelling; non-trivial: a request after another one (R01), a repeated canonical tag (R02)";
    let _ = BTreeSet::<u8>::new();
    vec![Prop { id: "R01", rule, gen, check: check_r01 }, Prop { id: "R02", rule, gen, check: check_r02 },
        Prop { id: "S01", rule: "all eight script directions, random tagged strings; every case is non-trivial", gen: gen_s, check: check_s01 }]
}
