use crate::{model, rng::Rng, Check, Prop};
use i18n_localiser::{english_a_or_an, file_path, CommandError, CommandRegistry};
use i18n_utility::PlaceholderValue;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn f0(_: Vec<PlaceholderValue>) -> Result<String, CommandError> { Ok("f0".into()) }
fn f1(_: Vec<PlaceholderValue>) -> Result<String, CommandError> { Ok("f1".into()) }
fn f2(_: Vec<PlaceholderValue>) -> Result<String, CommandError> { Ok("f2".into()) }
fn f3(_: Vec<PlaceholderValue>) -> Result<String, CommandError> { Ok("f3".into()) }
pub type F = fn(Vec<PlaceholderValue>) -> Result<String, CommandError>;
pub const FS: [F; 4] = [f0, f1, f2, f3];
pub const NAMES: &[&str] = &["a", "b", "A", "", "ab", "é", "a ", "__"];

fn gen_c01(r: &mut Rng, i: u64) -> Value {
    let n = if i < 500 { 2 + r.below(3) } else if r.chance(1, 150) { 100 + r.below(200) } else { 1 + r.below(16) };
    let mut made: Vec<String> = vec![];
    let any = r.chance(1, 3);
    json!({"ops": (0..n).map(|_| {
        let name = if any && r.chance(2, 3) {
            if !made.is_empty() && r.chance(1, 3) { r.pick(&made).clone() } else { let s = model::any_text(r); made.push(s.clone()); s }
        } else { r.pick(NAMES).to_string() };
        json!([r.pick(&["insert", "insert", "command", "list"]), name, r.below(4)])
    }).collect::<Vec<_>>()})
}
fn check_c01(v: &Value) -> Check {
    let reg = CommandRegistry::new();
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    let mut nt = false;
    let verify = |m: &BTreeMap<String, usize>, k: usize, asked: &str| -> Result<(), String> {
        for n in NAMES.iter().cloned().chain(m.keys().map(|n| n.as_str())).chain([asked]) {
            match (reg.command(n), m.get(n)) {
                (Ok(f), Some(i)) => { let g = f(vec![]).unwrap(); if g != format!("f{i}") { return Err(format!("op {k}: command {n:?} is {g} instead of f{i}")); } }
                (Err(CommandError::NotFound(x)), None) => if x != n { return Err(format!("op {k}: NotFound names {x:?}, not {n:?}")); },
                (Ok(_), None) => return Err(format!("op {k}: command {n:?} was never registered")),
                (Err(e), _) => return Err(format!("op {k}: command {n:?}: {e:?}")),
            }
        }
        // names close to a registered one are other names
        for n in m.keys() {
            for x in [format!("{n}.x"), format!("{n}_x"), format!("{n}-x"), format!("{n}/x"), format!("{n}::x"), format!("{n} x"), format!("x.{n}"), format!("x_{n}"), format!("{n}{n}"), format!(" {n}"), format!("{n} "), format!("_{n}"), format!("#{n}"), format!("{n}#"), n.to_uppercase(), n.to_lowercase(), n.chars().skip(1).collect(), n.chars().take(n.chars().count().saturating_sub(1)).collect(), n.chars().rev().collect(), n.trim().into()] {
                let x: String = x;
                if !m.contains_key(&x) && reg.command(&x).is_ok() { return Err(format!("op {k}: command {x:?} was never registered, {n:?} was")); }
            }
        }
        let mut l = reg.list();
        l.sort();
        let w: Vec<String> = m.keys().cloned().collect();
        if l != w { return Err(format!("op {k}: list {l:?}, expected {w:?}")); }
        Ok(())
    };
    for (k, op) in v["ops"].as_array().unwrap().iter().enumerate() {
        let n = op[1].as_str().unwrap();
        if op[0] == "insert" {
            let i = op[2].as_u64().unwrap() as usize % 4;
            match (reg.insert(n, FS[i]), m.contains_key(n)) {
                (Ok(()), false) => { m.insert(n.into(), i); }
                (Err(CommandError::AlreadyExists(x)), true) => { nt = true; if x != n { return Err(format!("op {k}: AlreadyExists names {x:?}")); } }
                (a, b) => return Err(format!("op {k}: insert({n:?}) with existing={b}: {a:?}")),
            }
        }
        // long histories: the whole registry now and then
        if k < 40 || k % 37 == 0 { verify(&m, k, n)?; }
    }
    Ok(nt)
}
fn gen_c02(r: &mut Rng, i: u64) -> Value {
    let n = if i < 200 { i as usize % 4 } else { r.below(5) };
    let vals: Vec<Value> = (0..n).map(|_| if r.chance(1, 5) { model::gen_value(r) } else {
        let k = r.below(6);
        if r.chance(1, 6) { return json!({"s": model::any_text(r)}); }
        let s: String = (0..k).map(|_| *r.pick(&['a', 'e', 'i', 'o', 'u', 'A', 'E', 'b', 'y', 'é', '/', '.', ' ', '1', '中'])).collect();
        json!({"s": s})
    }).collect();
    json!({"f": r.pick(&["path", "article"]), "p": vals})
}
fn check_c02(v: &Value) -> Check {
    let ps: Vec<PlaceholderValue> = v["p"].as_array().unwrap().iter().map(model::value).collect::<Result<_, _>>()?;
    let is_path = v["f"] == "path";
    let got = if is_path { file_path(ps.clone()) } else { english_a_or_an(ps.clone()) };
    let want: Result<String, (bool, usize)> = match ps.first() {
        None => Err((true, 0)),
        Some(PlaceholderValue::String(_)) => match ps.get(1) {
            None => Err((true, 1)),
            Some(PlaceholderValue::String(s)) => Ok(if is_path { s.clone() } else if s.starts_with(['a', 'e', 'i', 'o', 'u']) { "an".into() } else { "a".into() }),
            Some(_) => Err((false, 1)),
        },
        Some(_) => Err((false, 0)),
    };
    match (&got, &want) {
        (Ok(a), Ok(b)) if a == b => Ok(true),
        (Err(CommandError::ParameterMissing(_, i)), Err((true, j))) if i == j => Ok(true),
        (Err(CommandError::InvalidType(_, i)), Err((false, j))) if i == j => Ok(true),
        _ => Err(format!("got {got:?}, expected {want:?} (Err: (missing, index))")),
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "random histories of up to 16 (now and then 300) registrations, look-ups and listings over 8 names, random ones and 4 functions, the whole registry compared with a map after each; non-trivial: a repeated registration", gen: gen_c01, check: check_c01 },
        Prop { id: "C02", rule: "parameter lists of 0-4 values of all types; every case is non-trivial", gen: gen_c02, check: check_c02 },
    ]
}
