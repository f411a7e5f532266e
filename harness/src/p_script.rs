//! S02: script data of language tags
use crate::{model, rng::Rng, Check, Prop};
use i18n_localiser::Localiser;
use i18n_utility::{ScriptData, ScriptDirection};
use icu_locid::{LanguageIdentifier, Locale};
use icu_locid_transform::{Direction, LocaleDirectionality, LocaleExpander, TransformResult};
use serde_json::{json, Value};

const SCRIPTS: &[&str] = &[
    "Adlm", "Aghb", "Ahom", "Arab", "Armi", "Armn", "Avst", "Bali", "Bamu", "Bass", "Batk", "Beng", "Bhks", "Bopo",
    "Brah", "Brai", "Bugi", "Buhd", "Cakm", "Cans", "Cari", "Cham", "Cher", "Chrs", "Copt", "Cpmn", "Cprt", "Cyrl",
    "Cyrs", "Deva", "Diak", "Dogr", "Dsrt", "Dupl", "Egyp", "Elba", "Elym", "Ethi", "Gara", "Geok", "Geor", "Glag",
    "Gong", "Gonm", "Goth", "Gran", "Grek", "Gujr", "Gukn", "Guru", "Hanb", "Hang", "Hani", "Hano", "Hans", "Hant",
    "Hatr", "Hebr", "Hikt", "Hira", "Hluw", "Hmng", "Hmnp", "Hung", "Ital", "Jamo", "Java", "Jpan", "Kali", "Kana",
    "Kawi", "Khar", "Khmr", "Khoj", "Kits", "Knda", "Kore", "Krai", "Kthi", "Lana", "Laoo", "Latf", "Latg", "Latn",
    "Lepc", "Limb", "Lina", "Linb", "Lisu", "Lyci", "Lydi", "Mahj", "Maka", "Mand", "Mani", "Marc", "Medf", "Mend",
    "Merc", "Mero", "Mlym", "Modi", "Mong", "Mroo", "Mtei", "Mult", "Mymr", "Nagm", "Nand", "Narb", "Nbat", "Newa",
    "Nkoo", "Nshu", "Ogam", "Olck", "Onao", "Orkh", "Orya", "Osge", "Osma", "Ougr", "Palm", "Pauc", "Perm", "Phag",
    "Phli", "Phlp", "Phlv", "Phnx", "Plrd", "Prti", "Rjng", "Rohg", "Runr", "Samr", "Sarb", "Saur", "Sgnw", "Shaw",
    "Shrd", "Sidd", "Sind", "Sinh", "Sogd", "Sogo", "Sora", "Soyo", "Sund", "Sunu", "Sylo", "Syrc", "Syre", "Syrj",
    "Syrn", "Tagb", "Takr", "Tale", "Talu", "Taml", "Tang", "Tavt", "Tayo", "Telu", "Tfng", "Tglg", "Thaa", "Thai",
    "Tibt", "Tirh", "Tnsa", "Todr", "Toto", "Tutg", "Ugar", "Vaii", "Vith", "Wara", "Wcho", "Xpeo", "Xsux", "Yezi",
    "Yiii", "Zand",
];
const REGIONS: &[&str] = &["ZA", "US", "CN", "TW", "IN", "PK", "IR", "RS", "MN", "001"];

fn language(r: &mut Rng) -> String {
    if r.chance(1, 3) { return r.pick(&["en", "ar", "he", "ii", "hy", "kn", "zh", "ja", "sr", "az", "ur", "fa", "dv", "ckb", "pa", "und", "xx", "nqo", "yi", "mn", "ks", "sd"]).to_string(); }
    (0..2 + r.below(2)).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
fn tag(r: &mut Rng) -> String {
    let mut t = language(r);
    if r.chance(1, 3) { t.push('-'); if r.chance(1, 20) { t.push_str("Qaaa") } else { t.push_str(r.pick(SCRIPTS)) } }
    if r.chance(1, 4) { t.push('-'); t.push_str(r.pick(REGIONS)); }
    t
}
// the first cases are one tag per script and one per language of two letters
fn gen(r: &mut Rng, i: u64) -> Value {
    let i = i as usize;
    let t = if i < SCRIPTS.len() { format!("und-{}", SCRIPTS[i]) } else if i < SCRIPTS.len() + 676 { let k = i - SCRIPTS.len(); format!("{}{}", (b'a' + (k / 26) as u8) as char, (b'a' + (k % 26) as u8) as char) } else { tag(r) };
    json!({"tag": t, "first": tag(r), "change": r.chance(1, 2)})
}
fn listed(d: &ScriptData, x: ScriptDirection) -> bool { d.directions.contains(&x) }
fn judge(l: &Localiser, tag: &str, got: Option<ScriptData>, what: &str) -> Result<bool, String> {
    thread_local! { static ICU: (LocaleExpander, LocaleDirectionality) = (LocaleExpander::new_extended(), LocaleDirectionality::new()); }
    let mut id: LanguageIdentifier = tag.parse().map_err(|_| "bad case: tag".to_string())?;
    let named = id.script.is_some();
    let script = ICU.with(|i| if id.script.is_some() { id.script } else { match i.0.maximize(&mut id) { TransformResult::Modified => id.script, TransformResult::Unmodified => None } });
    let Some(script) = script else {
        return if got.is_none() { Ok(false) } else { Err(format!("{what} of {tag}: {got:?}, but the script is not known")) };
    };
    let s = script.as_str();
    let same = l.script_data_for_language_tag(&model::tag(&format!("und-{s}")));
    if format!("{same:?}") != format!("{got:?}") { return Err(format!("{what} of {tag}: {got:?}, of its script {s}: {same:?}")); }
    let Some(d) = got else {
        return if named && !SCRIPTS.contains(&s) { Ok(false) } else { Err(format!("{what} of {tag}: none, the script is {s}")) };
    };
    if d.directions.is_empty() { return Err(format!("{what} of {tag}: no direction")); }
    let icu: Locale = format!("und-{s}").parse().map_err(|_| "bad case: script".to_string())?;
    let (ltr, rtl) = (listed(&d, ScriptDirection::TopToBottomLeftToRight), listed(&d, ScriptDirection::TopToBottomRightToLeft));
    match ICU.with(|i| i.1.get(&icu)) {
        Some(Direction::RightToLeft) if !rtl => Err(format!("{what} of {tag}: {s} is written from right to left, but has {:?}", d.directions)),
        Some(Direction::LeftToRight) if rtl && !ltr => Err(format!("{what} of {tag}: {s} is written from left to right, but has {:?}", d.directions)),
        x => Ok(x.is_some()),
    }
}
fn check(v: &Value) -> Check {
    let t = |k: &str| -> Result<String, String> {
        let t = v[k].as_str().ok_or("bad case: tag")?;
        model::registry().tag(t).map(|x| x.as_str().to_string()).map_err(|_| "bad case: tag".to_string())
    };
    let (a, b) = (t("first")?, t("tag")?);
    let change = v["change"].as_bool().ok_or("bad case")?;
    let l = model::localiser(&model::Mock::default(), false, false, if change { &a } else { &b })?;
    if change {
        judge(&l, &a, l.script_data(), "script data of the first default")?;
        l.defaults(Some(model::tag(&b)), None, None).map_err(|e| format!("change of the default: {e}"))?;
    }
    judge(&l, &b, l.script_data(), "script data of the default")?;
    let r = judge(&l, &b, l.script_data_for_language_tag(&model::tag(&b)), "script data")?;
    judge(&l, &a, l.script_data_for_language_tag(&model::tag(&a)), "script data")?;
    Ok(r)
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "S02", rule: "a tag for each of the 184 listed scripts and each language of two letters, then random languages, scripts and regions; script data of the default language before and after a change and of given tags, compared with ICU's likely script and direction; non-trivial: ICU knows the direction of the script", gen, check }]
}
