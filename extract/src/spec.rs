use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct LoopSpec { pub inv: String, pub head: String, pub foot: String, pub before: String, pub after: String }

#[derive(Clone, Debug)]
pub struct FnSpec {
    pub file: String, pub path: String, pub ret: String, pub spec: String, pub entry: String,
    pub loops: BTreeMap<usize, LoopSpec>, pub mutself: bool, pub is_helper: bool, pub attrs: Vec<String>,
    pub rename: Option<String>, pub props: Vec<String>, pub split: bool,
}
impl FnSpec {
    pub fn helper(file: &str, path: &str) -> Self {
        FnSpec { file: file.into(), path: path.into(), ret: "r".into(), spec: String::new(), entry: String::new(),
            loops: BTreeMap::new(), mutself: false, is_helper: true, attrs: vec![], rename: None, props: vec![], split: false }
    }
}
#[derive(Clone, Debug)]
pub struct ItemSpec { pub file: String, pub name: String, pub derives: Vec<String> }

#[derive(Clone, Debug)]
pub struct Rule { pub pat: String, pub rep: String }

#[derive(Debug, Default)]
pub struct Unit {
    pub name: String, pub features: Vec<String>, pub header: String, pub prelude: String, pub mid: String, pub tail: String,
    pub items: Vec<ItemSpec>, pub fns: Vec<FnSpec>, pub rules: Vec<Rule>, pub trules: Vec<Rule>, pub srules: Vec<Rule>,
    pub provided: BTreeSet<String>, pub rules_text: Vec<String>, pub desugar_for: bool, pub broadcasts: Vec<String>, pub axioms: String,
}
impl Unit {
    pub fn provided(&self, k: &str) -> bool { self.provided.contains(k) }
}

pub fn parse(path: &str) -> Unit {
    let mut u = Unit::default();
    u.header = "#![allow(unused_imports, unused_variables, dead_code, unused_mut, non_snake_case, unused_braces, unused_parens, unreachable_code, unreachable_patterns)]\nuse vstd::prelude::*;\n".into();
    let mut file = String::new();
    parse_into(path, &mut u, &mut file);
    u
}

enum Sec { None, Axioms, Prelude, Mid, Tail, Header, Spec, Entry, Loop(usize), Head(usize), Foot(usize), Before(usize), After(usize) }

fn parse_into(path: &str, u: &mut Unit, file: &mut String) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let dir = Path::new(path).parent().unwrap().to_path_buf();
    let mut sec = Sec::None;
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix('@') {
            let (d, arg) = match rest.split_once(' ') { Some((d, a)) => (d, a.trim()), None => (rest.trim(), "") };
            let n = || arg.parse::<usize>().unwrap();
            match d {
                "unit" => u.name = arg.into(),
                "features" => u.features = arg.split_whitespace().map(|s| s.to_string()).collect(),
                "include" => { parse_into(dir.join(arg).to_str().unwrap(), u, file); sec = Sec::None; }
                "header" => sec = Sec::Header,
                "prelude" => sec = Sec::Prelude,
                "mid" => sec = Sec::Mid,
                "axioms" => sec = Sec::Axioms,
                "tail" => sec = Sec::Tail,
                "file" => { *file = arg.into(); }
                "broadcast" => { for x in arg.split_whitespace() { u.broadcasts.push(x.into()); } }
                "desugar-for" => u.desugar_for = true,
                "provided" => { for x in arg.split_whitespace() { u.provided.insert(x.into()); } }
                "item" => {
                    let mut w = arg.split_whitespace();
                    let name = w.next().unwrap().to_string();
                    u.items.push(ItemSpec { file: file.clone(), name, derives: w.map(|s| s.to_string()).collect() });
                }
                "rewrite" | "retype" | "restmt" => {
                    let (p, r) = arg.split_once("=>>").unwrap_or_else(|| panic!("rule: {arg}"));
                    u.rules_text.push(format!("{d} {arg}"));
                    let rule = Rule { pat: p.trim().into(), rep: r.trim().into() };
                    match d { "rewrite" => u.rules.push(rule), "retype" => u.trules.push(rule), _ => u.srules.push(rule) }
                }
                "fn" => {
                    let mut f = FnSpec::helper(file, arg);
                    f.is_helper = false;
                    u.fns.push(f);
                    sec = Sec::Spec;
                }
                "props" => u.fns.last_mut().unwrap().props = arg.split_whitespace().map(|s| s.to_string()).collect(),
                "ret" => u.fns.last_mut().unwrap().ret = arg.into(),
                "attr" => u.fns.last_mut().unwrap().attrs.push(arg.into()),
                "rename" => u.fns.last_mut().unwrap().rename = Some(arg.into()),
                "split" => u.fns.last_mut().unwrap().split = true,
                "mutself" => u.fns.last_mut().unwrap().mutself = true,
                "spec" => sec = Sec::Spec,
                "entry" => sec = Sec::Entry,
                "loop" => { u.fns.last_mut().unwrap().loops.entry(n()).or_default(); sec = Sec::Loop(n()) }
                "head" => sec = Sec::Head(n()),
                "foot" => sec = Sec::Foot(n()),
                "before" => sec = Sec::Before(n()),
                "after" => sec = Sec::After(n()),
                "#" => {}
                _ => panic!("{path}: unknown directive @{d}"),
            }
            continue;
        }
        let l = format!("{line}\n");
        match sec {
            Sec::None => {}
            Sec::Header => u.header.push_str(&l),
            Sec::Prelude => u.prelude.push_str(&l),
            Sec::Axioms => u.axioms.push_str(&l),
            Sec::Mid => u.mid.push_str(&l),
            Sec::Tail => u.tail.push_str(&l),
            Sec::Spec => u.fns.last_mut().unwrap().spec.push_str(&l),
            Sec::Entry => u.fns.last_mut().unwrap().entry.push_str(&l),
            Sec::Loop(n) => u.fns.last_mut().unwrap().loops.entry(n).or_default().inv.push_str(&l),
            Sec::Head(n) => u.fns.last_mut().unwrap().loops.entry(n).or_default().head.push_str(&l),
            Sec::Foot(n) => u.fns.last_mut().unwrap().loops.entry(n).or_default().foot.push_str(&l),
            Sec::Before(n) => u.fns.last_mut().unwrap().loops.entry(n).or_default().before.push_str(&l),
            Sec::After(n) => u.fns.last_mut().unwrap().loops.entry(n).or_default().after.push_str(&l),
        }
    }
}
