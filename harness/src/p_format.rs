//! T01 T02 T03 F01 F02 F03 F04 C03: pattern strings through Localiser::format with a mock repository
use crate::{model::{self, Bad, Mock, Out, Part, Parsed, Render}, rng::Rng, Check, Prop};
use i18n_localiser::{FormatterError, LocaliserError};
use i18n_utility::PlaceholderValue;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

const LANGS: &[&str] = &["en", "en-ZA", "fr", "ar", "sl", "cy", "pl", "ja", "th", "hi", "he", "pt", "ru", "ga", "lt", "lv", "mt", "bn", "fa", "mr", "de-CH", "en-IN", "es-MX", "zh-Hant", "sr-Latn", "fr-CA", "pt-PT", "gd", "kw", "ne", "uk", "und"];
const TOKS: &[&str] = &["{", "}", "`", "#", " ", "  ", "a", "b", "p", "q", "x", "_", "other", "one", "plural", "select", "decimal", "date_time", "ordinal", "join", "fail", "sign", "always", "$", "+", "-", "é", "中", "\n", "\u{301}", "1"];

// ----- random well formed patterns (mostly) -----
struct G<'a> { r: &'a mut Rng, phs: usize, named: Vec<String>, kinds: Vec<(String, &'static str)>, bad: bool, cmds: bool, nopat: bool, scale: bool, once: bool }
impl G<'_> {
    fn text(&mut self) -> String {
        if self.r.chance(1, if self.scale { 8 } else { 60 }) {
            // any text, escaped where needed
            return model::any_text(self.r).chars().flat_map(|c| if "{}`#".contains(c) { vec!['`', c] } else { vec![c] }).chain(['.']).collect();
        }
        let n = 1 + self.r.below(3);
        (0..n).map(|_| *self.r.pick(&["a", " ", "word", "$", "é", "中", "1", ". ", "\n", "-", "x y", "`{", "`}", "`#", "``", "`a", "` "])).collect()
    }
    fn lit(&mut self) -> String {
        if self.r.chance(1, if self.scale { 8 } else { 60 }) { return model::any_text(self.r).replace('`', "``"); }
        let n = self.r.below(4);
        (0..n).map(|_| *self.r.pick(&["a", " ", "{", "}", "#", "``", "é", "{x}", "#p", "$"])).collect()
    }
    fn ws(&mut self) -> &'static str { *self.r.pick(&["", "", "", " ", "  "]) }
    fn selectors(&mut self, plural: bool) -> String {
        let mut s = String::new();
        if self.named.is_empty() && !self.bad { return s; }
        let pool: &[&str] = if plural { &["zero", "one", "two", "few", "many"] } else { &["male", "female", "a", "apple", "one"] };
        let n = if self.scale { self.r.below(40) } else { self.r.below(4) };
        let more: Vec<String> = (0..if self.scale && !plural { n } else { 0 }).map(|_| model::any_ident(self.r)).collect();
        let mut keys: Vec<&str> = (0..n).map(|_| *self.r.pick(pool)).chain(more.iter().map(|x| x.as_str())).collect();
        if !(self.bad && self.r.chance(1, 3)) && (plural || self.r.chance(2, 3)) { let at = self.r.below(keys.len() + 1); keys.insert(at, "other"); }
        if self.bad && self.r.chance(1, 4) { keys.push(*self.r.pick(&["others", "1", "One", "_", "zeros"])); }
        for k in keys {
            let nm = if self.named.is_empty() || self.bad && self.r.chance(1, 4) { self.r.pick(&["nope", "_", "n9", "n1", "other"]).to_string() } else { let k = self.r.below(self.named.len()); self.named[k].clone() };
            s.push_str(&format!(" {k}#{nm}"));
        }
        s
    }
    fn pattern(&mut self) -> String {
        if self.nopat || self.r.chance(1, 5) { let l = self.lit(); return format!("{{`{l}`}}"); }
        if self.cmds && self.r.chance(1, 2) || !self.cmds && self.r.chance(1, 12) { return self.command(); }
        let ph = if self.bad && self.r.chance(1, 15) { "p0".to_string() } else if self.scale && self.r.chance(1, 3) { format!("{}{}", model::any_ident(self.r), self.phs) } else { format!("{}{}", if self.r.chance(1, 12) { "P" } else { "p" }, self.phs) };
        self.phs += 1;
        let mut kinds = vec!["string", "decimal", "date_time"];
        if !self.named.is_empty() || self.bad { kinds.extend(["plural", "plural", "ordinal", "select", "plural"]); }
        let k = *self.r.pick(&kinds);
        self.kinds.push((ph.clone(), k));
        let (w1, w2) = (self.ws(), self.ws());
        let body = match k {
            "string" => return format!("{{{ph}{w1}}}"),
            "decimal" => {
                let mut s = String::new();
                for _ in 0..if self.scale { self.r.below(40) } else { self.r.below(3) } {
                    if self.bad && self.r.chance(1, 5) { s.push_str(self.r.pick(&[" sign#no", " group#min", " date#full", " signs#auto", " sign#Always"])); continue; }
                    if self.r.chance(1, 2) { s.push_str(&format!(" sign#{}", self.r.pick(&["auto", "never", "always", "except_zero", "negative"]))); }
                    else { s.push_str(&format!(" group#{}", self.r.pick(&["auto", "never", "always", "min2"]))); }
                }
                s
            }
            "date_time" => {
                let mut s = String::new();
                for _ in 0..if self.scale { self.r.below(40) } else { self.r.below(3) } {
                    if self.bad && self.r.chance(1, 5) { s.push_str(self.r.pick(&[" date#tiny", " time#none", " sign#auto", " dates#full", " calendar#french", " time#Full"])); continue; }
                    s.push_str(&format!(" {}#{}", self.r.pick(&["date", "time"]), self.r.pick(&["full", "long", "medium", "short"])));
                }
                s
            }
            "plural" | "ordinal" => self.selectors(true),
            _ => self.selectors(false),
        };
        let kw = if self.bad && self.r.chance(1, 12) { *self.r.pick(&["number", "Decimal", "string", "dateTime", "other"]) } else { k };
        format!("{{{ph} {w1}{kw}{body}{w2}}}")
    }
    fn command(&mut self) -> String {
        let odd = self.bad || self.r.chance(1, 4);
        let name = *self.r.pick(&["join", "join", "join", "join", "file_path", "english_a_or_an", "fussy", if odd { "fail" } else { "join" }, if odd { "missing" } else { "join" }]);
        let mut s = format!("{{#{}{name}", self.ws());
        if self.r.chance(1, 2) { s.push_str(self.r.pick(&["#", " #", "# "])); }
        for _ in 0..if self.scale { self.r.below(40) } else { self.r.below(4) } {
            if self.r.chance(1, 2) { let l = self.lit(); s.push_str(&format!(" `{l}`")); } else { s.push_str(&format!(" {}", self.r.pick(&["p0", "p1", "v", "join", "apple", "egg"]))); }
        }
        s.push_str(self.ws());
        s.push('}');
        s
    }
    fn string(&mut self, named: bool) -> String {
        let mut s = String::new();
        let mut num = false;
        let n = if self.scale { if named { 1 + self.r.below(6) } else { self.r.below(40) } } else { named as usize + self.r.below(4) };
        self.once = false;
        for _ in 0..n {
            if named && !num && self.r.chance(1, 3) { s.push('#'); num = true; continue; }
            num = false;
            // a named string of a long group has one pattern, or the result would grow exponentially
            if self.r.chance(1, 2) || self.scale && named && self.once { s.push_str(&self.text()) } else { self.once = true; s.push_str(&self.pattern()) }
        }
        s
    }
    fn whole(&mut self) -> String {
        let n = if self.scale { self.r.below(30) } else if self.r.chance(2, 3) { self.r.below(4) } else { 0 };
        let mut group = String::new();
        for k in 0..n {
            let id = if self.bad && self.r.chance(1, 10) { self.r.pick(&["_", "n0"]).to_string() } else if self.scale && self.r.chance(1, 3) { format!("{}{k}", model::any_ident(self.r)) } else { format!("n{k}") };
            let body = self.string(true);
            let w = if self.r.chance(1, 6) { "  " } else { " " };
            let lead = self.ws();
            group.push_str(&format!("{lead}{{{id}{w}{body}}}"));
            self.named.push(id);
        }
        let main = self.string(false);
        if n > 0 { format!("{main}#{group}") } else if self.r.chance(1, 20) { format!("{main}#") } else { main }
    }
}
fn pattern(r: &mut Rng, bad: bool, cmds: bool, nopat: bool) -> (String, Vec<(String, &'static str)>) {
    let scale = r.chance(1, 60);
    let mut g = G { r, phs: 0, named: vec![], kinds: vec![], bad, cmds, nopat, scale, once: false };
    let s = g.whole();
    let k = g.kinds;
    (s, k)
}
fn good_value(r: &mut Rng, kind: &str) -> Value {
    match kind {
        "string" => { let t = model::gen_text(r); match r.below(3) { 0 => json!({"t": [t, "fr"]}), 1 => json!({"l": [t, "en"]}), _ => json!({"s": t}) } }
        "select" => { let t = r.pick(&["male", "female", "a", "apple", "one", "other", "zzz"]).to_string(); let t = if r.chance(1, 8) { model::near(r, &t) } else { t }; match r.below(3) { 0 => json!({"t": [t, "fr"]}), 1 => json!({"l": [t, "en"]}), _ => json!({"s": t}) } }
        "ordinal" => if r.chance(1, 5) { json!({"u": r.next() >> r.below(64)}) } else { json!({"u": *r.pick(&[0u64, 1, 2, 3, 4, 5, 8, 11, 12, 13, 21, 22, 23, 80, 101, 1002])}) },
        "date_time" => model::gen_date(r),
        _ => model::gen_number(r),
    }
}
fn gen_values(r: &mut Rng, kinds: &[(String, &'static str)], wrong: usize) -> Value {
    let mut m = Map::new();
    for (p, k) in kinds {
        if wrong > 0 && r.chance(wrong, 20) { continue; }
        m.insert(p.clone(), if wrong > 0 && r.chance(wrong, 10) { model::gen_value(r) } else { good_value(r, k) });
    }
    if r.chance(1, 4) { m.insert("v".into(), model::gen_value(r)); }
    if r.chance(1, 6) { m.insert("unused".into(), model::gen_value(r)); }
    // a value of almost the same name
    if r.chance(1, 6) && !kinds.is_empty() {
        let p = r.pick(kinds).0.clone();
        let q = match r.below(4) { 0 => p.to_lowercase(), 1 => p.to_uppercase(), 2 => format!("{p}0"), _ => p.trim_end_matches(|c: char| c.is_ascii_digit()).to_string() };
        if !kinds.iter().any(|k| k.0 == q) && !m.contains_key(&q) { m.insert(q, model::gen_value(r)); }
    }
    Value::Object(m)
}
fn tokens(r: &mut Rng) -> String {
    let n = if r.chance(1, 100) { 300 } else { 1 + r.below(14) };
    (0..n).map(|_| if r.chance(1, 60) { model::any_ident(r) } else { r.pick(TOKS).to_string() }).collect()
}
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        if c.is_empty() { break; }
        let k = r.below(c.len());
        match r.below(4) {
            0 => { c.remove(k); }
            1 => c.insert(k, *r.pick(&['{', '}', '`', '#', ' ', 'a', '$', '_'])),
            2 => { let j = r.below(c.len()); c.swap(k, j); }
            _ => { c.truncate(k); }
        }
    }
    c.into_iter().collect()
}
fn enumerated(i: u64) -> Option<String> {
    // all sequences of up to 6 tokens out of 7
    const T: [&str; 7] = ["{", "}", "`", "#", "a", " ", "$"];
    let mut total = 0u64;
    for len in 1..=6u32 {
        let c = 7u64.pow(len);
        if i < total + c {
            let mut k = i - total;
            let mut s = String::new();
            for _ in 0..len { s.push_str(T[(k % 7) as usize]); k /= 7; }
            return Some(s);
        }
        total += c;
    }
    None
}
fn gen_parse(r: &mut Rng, i: u64) -> Value {
    // alternate enumeration and random generation so that both progress in a short run
    let p = if i % 2 == 0 { enumerated(i / 2) } else { None };
    if let Some(p) = p { return json!({"p": p, "lang": "en", "v": {}}); }
    let bad = r.chance(1, 3);
    let cmds = r.chance(1, 4);
    let (p, k) = pattern(r, bad, cmds, false);
    let p = match r.below(4) { 0 => tokens(r), 1 => mutate(r, &p), 2 => format!("{p}{}", if r.chance(1, 3) { tokens(r) } else { String::new() }), _ => p };
    json!({"p": p, "lang": r.pick(LANGS), "v": gen_values(r, &k, 2)})
}
struct Case { p: String, lang: String, v: HashMap<String, PlaceholderValue> }
fn case(v: &Value) -> Result<Case, String> {
    let s = |k: &str| v[k].as_str().map(|x| x.to_string()).ok_or("bad case".to_string());
    let lang = s("lang")?;
    if !LANGS.contains(&lang.as_str()) { return Err("bad case: language".into()); }
    Ok(Case { p: s("p")?, lang, v: model::values(&v["v"])? })
}
fn desc(o: &Out) -> String { match o { Ok(x) => format!("{x:?}"), Err(e) => format!("error {e:?}") } }
fn is_tree(o: &Out) -> bool { matches!(o, Err(LocaliserError::Formatter(FormatterError::Tree(_)))) }

fn check_t01(v: &Value) -> Check {
    let c = case(v)?;
    let _ = model::format(&c.p, &c.lang, &c.v)?;
    let _ = model::format(&c.p, &c.lang, &HashMap::new())?;
    Ok(model::has_grammar(&c.p))
}
fn check_t02(v: &Value) -> Check {
    let c = case(v)?;
    let o = model::format(&c.p, &c.lang, &c.v)?;
    let m = model::parse(&c.p);
    match (m, is_tree(&o)) {
        (Ok(_), false) | (Err(()), true) => Ok(model::has_grammar(&c.p)),
        (Ok(_), true) => Err(format!("well formed pattern {:?} is rejected: {}", c.p, desc(&o))),
        (Err(()), false) => Err(format!("malformed pattern {:?} is not rejected by the parser: {}", c.p, desc(&o))),
    }
}
fn gen_t03(r: &mut Rng, i: u64) -> Value {
    if i % 4 == 0 { if let Some(p) = enumerated(i / 4) { return json!({"p": p, "lang": "en", "v": {"a": {"s": "VALUE"}}}); } }
    let nopat = r.chance(1, 2);
    let cmds = r.chance(1, 4);
    let (p, k) = pattern(r, false, cmds, nopat);
    json!({"p": p, "lang": r.pick(LANGS), "v": gen_values(r, &k, 0)})
}
/// what the model says: Err(Unspecified) when nothing can be said
fn want(c: &Case) -> Result<String, Bad> {
    if !model::has_grammar(&c.p) { return Ok(c.p.clone()); }
    let m: Parsed = model::parse(&c.p).map_err(|_| Bad::Error)?;
    match model::valid(&m) { None => return Err(Bad::Unspecified), Some(false) => return Err(Bad::Error), _ => {} }
    // commands that are not delayed run on construction, wherever they are
    let none = HashMap::new();
    let r0 = Render { p: &m, locale: model::data_locale(&c.lang), values: &none };
    for x in m.named.iter().flat_map(|n| n.1.iter()).chain(m.main.iter()) {
        if let Part::Command { delay: false, .. } = x { Render { p: &Parsed { main: vec![x.clone()], named: vec![] }, locale: r0.locale.clone(), values: &none }.main()?; }
    }
    Render { p: &m, locale: model::data_locale(&c.lang), values: &c.v }.main()
}
fn cmp(c: &Case, o: &Out, w: Result<String, Bad>) -> Check {
    match (o, w) {
        (_, Err(Bad::Unspecified)) => Ok(false),
        (Ok((s, t)), Ok(w)) => {
            if *s != w { return Err(format!("pattern {:?} in {} gives {s:?}, expected {w:?}", c.p, c.lang)); }
            if *t != c.lang { return Err(format!("pattern {:?} gives tag {t}, expected {}", c.p, c.lang)); }
            Ok(true)
        }
        (Err(_), Err(Bad::Error)) => Ok(true),
        (Err(e), Ok(w)) => Err(format!("pattern {:?} in {} gives error {e:?}, expected {w:?}", c.p, c.lang)),
        (Ok(s), Err(Bad::Error)) => Err(format!("pattern {:?} in {} gives {s:?}, expected an error", c.p, c.lang)),
    }
}
fn check_t03(v: &Value) -> Check {
    let c = case(v)?;
    let o = model::format(&c.p, &c.lang, &c.v)?;
    let w = want(&c);
    // only what concerns text: accepted patterns whose result is defined
    if w.is_err() || is_tree(&o) { return Ok(false); }
    cmp(&c, &o, w)
}
fn construct(e: &LocaliserError) -> bool {
    use FormatterError::*;
    matches!(e, LocaliserError::Formatter(InvalidOptionValue(..) | InvalidKeyword(..) | SelectorNamed(..) | SelectorOther(..) | NoChildren(..) | InvalidOption(..) | InvalidSelector(..) | NamedStringIdentifier(..) | NodeNotFound(..) | InvalidNode(..)))
}
fn gen_f01(r: &mut Rng, _: u64) -> Value {
    let bad = r.chance(2, 3);
    let (p, k) = pattern(r, bad, false, false);
    json!({"p": p, "lang": r.pick(LANGS), "v": gen_values(r, &k, 0)})
}
fn check_f01(v: &Value) -> Check {
    let c = case(v)?;
    if !model::has_grammar(&c.p) { return Ok(false); }
    let Ok(m) = model::parse(&c.p) else { return Ok(false) };
    let cmd = m.named.iter().flat_map(|n| n.1.iter()).chain(m.main.iter()).any(|x| matches!(x, Part::Command { .. }));
    if cmd { return Ok(false); }
    let Some(ok) = model::valid(&m) else { return Ok(false) };
    let o = [model::format(&c.p, &c.lang, &c.v)?, model::format(&c.p, &c.lang, &HashMap::new())?];
    for x in &o {
        if is_tree(x) { return Ok(false); }
        match x {
            Err(e) if construct(e) => if ok { return Err(format!("valid pattern {:?} is rejected: {e:?}", c.p)); },
            _ => if !ok { return Err(format!("invalid pattern {:?} is not rejected before formatting: {}", c.p, desc(x))); },
        }
    }
    Ok(true)
}
fn gen_f02(r: &mut Rng, _: u64) -> Value {
    let (p, k) = pattern(r, false, false, false);
    json!({"p": p, "lang": r.pick(LANGS), "v": gen_values(r, &k, 0)})
}
fn check_f02(v: &Value) -> Check {
    let c = case(v)?;
    let w = want(&c);
    if w.is_err() { return Ok(false); }
    let o = model::format(&c.p, &c.lang, &c.v)?;
    if is_tree(&o) { return Ok(false); }
    cmp(&c, &o, w).map(|x| x && c.p.contains('{'))
}
fn gen_f03(r: &mut Rng, _: u64) -> Value {
    let (p, k) = pattern(r, false, false, false);
    json!({"p": p, "lang": r.pick(LANGS), "v": gen_values(r, &k, 4)})
}
fn check_f03(v: &Value) -> Check {
    let c = case(v)?;
    let Ok(m) = model::parse(&c.p) else { return Ok(false) };
    if model::valid(&m) != Some(true) { return Ok(false); }
    let o = model::format(&c.p, &c.lang, &c.v)?;
    match (want(&c), &o) {
        (Err(Bad::Error), Ok(s)) => Err(format!("pattern {:?} gives {s:?} although a value is missing or has the wrong type", c.p)),
        (Err(Bad::Error), Err(_)) => Ok(true),
        (Ok(w), Err(LocaliserError::Formatter(e @ (FormatterError::PlaceholderValue(..) | FormatterError::InvalidValue(..))))) => Err(format!("pattern {:?} gives {e:?}, expected {w:?}", c.p)),
        (Ok(_), _) => {
            // values that no placeholder uses have no influence
            let mut more = c.v.clone();
            more.insert("zz_unused".into(), PlaceholderValue::Unsigned(3));
            let has_cmd = c.p.contains("{#");
            let o2 = model::format(&c.p, &c.lang, &more)?;
            if !has_cmd && desc(&o) != desc(&o2) { return Err(format!("pattern {:?}: an unused value changes {} to {}", c.p, desc(&o), desc(&o2))); }
            Ok(false)
        }
        _ => Ok(false),
    }
}
fn gen_f04(r: &mut Rng, _: u64) -> Value {
    let cmds = r.chance(1, 5);
    let (p, k) = pattern(r, false, cmds, false);
    let n = 2 + r.below(4);
    let vs: Vec<Value> = (0..n).map(|_| { let w = if r.chance(1, 3) { 4 } else { 0 }; gen_values(r, &k, w) }).collect();
    json!({"p": p, "lang": r.pick(LANGS), "vs": vs})
}
fn check_f04(v: &Value) -> Check {
    let (Some(p), Some(lang), Some(vs)) = (v["p"].as_str(), v["lang"].as_str(), v["vs"].as_array()) else { return Err("bad case".into()) };
    if !LANGS.contains(&lang) { return Err("bad case: language".into()); }
    let m = Mock::default();
    m.0.borrow_mut().strings.insert(("c".into(), "i".into(), lang.into()), (p.into(), lang.into()));
    let loc = model::localiser(&m, false, true, "en")?;
    let mut nt = false;
    let mut seen: Vec<String> = vec![];
    for (k, x) in vs.iter().enumerate() {
        let vals = model::values(x)?;
        let got = desc(&model::out(loc.format("c", "i", &vals, &model::tag(lang), None, None)));
        let want = desc(&model::format(p, lang, &vals)?);
        if got != want { return Err(format!("formatting {k} of {p:?} after {} others gives {got}, on a new localiser {want}", k)); }
        nt |= !seen.is_empty() && !seen.contains(&got);
        seen.push(got);
    }
    Ok(nt)
}
fn gen_c03(r: &mut Rng, _: u64) -> Value {
    let (p, k) = pattern(r, false, true, false);
    let mut v = gen_values(r, &k, 0);
    for n in ["p0", "p1", "v", "apple", "join"] { if r.chance(1, 3) && v.get(n).is_none() { v[n] = model::gen_value(r); } }
    json!({"p": p, "lang": r.pick(LANGS), "v": v})
}
fn check_c03(v: &Value) -> Check {
    let c = case(v)?;
    if !c.p.contains("{#") { return Ok(false); }
    let Ok(m) = model::parse(&c.p) else { return Ok(false) };
    if model::valid(&m) != Some(true) { return Ok(false); }
    let o = model::format(&c.p, &c.lang, &c.v)?;
    if is_tree(&o) { return Err(format!("command pattern {:?} is rejected: {}", c.p, desc(&o))); }
    let w = want(&c);
    cmp(&c, &o, w)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "T01", rule: "every token sequence of up to 6 out of 7 token kinds, random token sequences, well formed patterns and mutations of them, with right, wrong and missing values; non-trivial: has a grammar character", gen: gen_parse, check: check_t01 },
        Prop { id: "T02", rule: "as T01, acceptance by the parser compared with an independent recursive descent parser of the documented grammar; non-trivial: has a grammar character", gen: gen_parse, check: check_t02 },
        Prop { id: "T03", rule: "token sequences and well formed patterns rich in escapes and literal text, result compared with the reference renderer; non-trivial: the result is defined", gen: gen_t03, check: check_t03 },
        Prop { id: "F01", rule: "parsed patterns with right and wrong keywords, options, values, selectors and named strings; non-trivial: parsed pattern without commands", gen: gen_f01, check: check_f01 },
        Prop { id: "F02", rule: "valid patterns with right values in 32 languages against the reference renderer; non-trivial: has a pattern", gen: gen_f02, check: check_f02 },
        Prop { id: "F03", rule: "valid patterns with missing and wrongly typed values; non-trivial: a reached placeholder has no proper value", gen: gen_f03, check: check_f03 },
        Prop { id: "F04", rule: "2-5 formattings of one cached string against a new localiser for each; non-trivial: different results in one history", gen: gen_f04, check: check_f04 },
        Prop { id: "C03", rule: "patterns with commands (delayed or not, literal and named parameters, failing and unregistered commands) against the reference renderer; non-trivial: has a command", gen: gen_c03, check: check_c03 },
    ]
}
