//! vp-extract: mechanical extraction of real functions into a Verus file.
//!
//! usage: vp-extract REPO_ROOT SPEC_FILE OUT.rs OUT.json
//!
//! Reads the spec file, parses the named source files of /repo with `syn`, resolves `cfg`,
//! strips documentation/attributes, applies the rewrite rules the spec file lists, and writes
//! the function bodies with the contracts placed around them. It never writes a body of its own.
mod spec;
mod xform;

use quote::ToTokens;
use serde_json::json;
use spec::{FnSpec, Unit};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

pub fn fail(kind: &str, msg: String) -> ! {
    // exit code 3: structural failure (lost anchor / unsupported construct), never a verdict
    eprintln!("EXTRACT-STRUCTURAL {kind}: {msg}");
    std::process::exit(3)
}

pub struct Found {
    pub self_ty: Option<syn::Type>,
    pub generics: syn::Generics,
    pub sig: syn::Signature,
    pub block: syn::Block,
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}

struct FileIx {
    fns: HashMap<String, Found>,
    items: HashMap<String, syn::Item>,
    assoc: HashMap<String, syn::Type>, // "Type::Item"
}

fn index_file(path: &str, feats: &BTreeSet<String>) -> FileIx {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| fail("anchor", format!("{path}: {e}")));
    let mut file = syn::parse_file(&text).unwrap_or_else(|e| fail("parse", format!("{path}: {e}")));
    let mut c = xform::Cfg { feats };
    c.visit_file_mut(&mut file);
    let mut ix = FileIx { fns: HashMap::new(), items: HashMap::new(), assoc: HashMap::new() };
    fn add(ix: &mut FileIx, items: Vec<syn::Item>) {
        for it in items {
            match it {
                syn::Item::Fn(f) => {
                    ix.fns.insert(
                        f.sig.ident.to_string(),
                        Found { self_ty: None, generics: Default::default(), sig: f.sig, block: *f.block },
                    );
                }
                syn::Item::Impl(im) => {
                    let tn = type_name(&im.self_ty);
                    for ii in im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                let mut key = format!("{tn}::{}", f.sig.ident);
                                if let Some((_, p, _)) = &im.trait_ {
                                    let seg = p.segments.last().unwrap();
                                    let tk = format!("{}<{}>::{}", tn, p.to_token_stream().to_string().replace(' ', ""), f.sig.ident);
                                    ix.fns.insert(
                                        tk.clone(),
                                        Found { self_ty: Some((*im.self_ty).clone()), generics: im.generics.clone(), sig: f.sig.clone(), block: f.block.clone() },
                                    );
                                    let _ = seg;
                                    if ix.fns.contains_key(&key) {
                                        key = tk;
                                    }
                                }
                                ix.fns.insert(
                                    key,
                                    Found { self_ty: Some((*im.self_ty).clone()), generics: im.generics.clone(), sig: f.sig, block: f.block },
                                );
                            }
                            syn::ImplItem::Type(t) => {
                                ix.assoc.insert(format!("{tn}::{}", t.ident), t.ty);
                            }
                            syn::ImplItem::Const(_) => {}
                            _ => {}
                        }
                    }
                }
                syn::Item::Struct(ref s) => { ix.items.insert(s.ident.to_string(), it); }
                syn::Item::Enum(ref s) => { ix.items.insert(s.ident.to_string(), it); }
                syn::Item::Const(ref s) => { ix.items.insert(s.ident.to_string(), it); }
                syn::Item::Static(ref s) => { ix.items.insert(s.ident.to_string(), it); }
                syn::Item::Type(ref s) => { ix.items.insert(s.ident.to_string(), it); }
                syn::Item::Mod(m) => {
                    if m.ident != "tests" {
                        if let Some((_, items)) = m.content { add(ix, items); }
                    }
                }
                _ => {}
            }
        }
    }
    add(&mut ix, file.items);
    ix
}

fn rustfmt(src: &str) -> String {
    let mut ch = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=110"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("rustfmt");
    let mut si = ch.stdin.take().unwrap();
    let s = src.to_string();
    let h = std::thread::spawn(move || { let _ = si.write_all(s.as_bytes()); });
    let out = ch.wait_with_output().expect("rustfmt");
    let _ = h.join();
    if !out.status.success() {
        return src.to_string();
    }
    String::from_utf8(out.stdout).unwrap()
}

struct Calls { names: BTreeSet<String> }
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            self.names.insert(segs.join("::"));
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        self.names.insert(format!(".{}", c.method));
        syn::visit::visit_expr_method_call(self, c);
    }
}

/// the kinds of the loops of a function as written, in order
struct Kinds { k: Vec<&'static str> }
impl<'a> Visit<'a> for Kinds {
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        self.k.push(if matches!(&*w.cond, syn::Expr::Let(_)) { "while let" } else { "while" });
        syn::visit::visit_expr_while(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'a syn::ExprForLoop) {
        self.k.push("for");
        syn::visit::visit_expr_for_loop(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'a syn::ExprLoop) {
        self.k.push("loop");
        syn::visit::visit_expr_loop(self, w);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = &a[1];
    let vacuity = a.iter().any(|x| x == "--vacuity");
    let arm: usize = a.iter().position(|x| x == "--arm").map(|i| a[i + 1].parse().unwrap()).unwrap_or(0);
    let unit = spec::parse(&a[2]);
    let feats: BTreeSet<String> = unit.features.iter().cloned().collect();
    let mut files: BTreeMap<String, FileIx> = BTreeMap::new();
    for f in unit.items.iter().map(|i| &i.file).chain(unit.fns.iter().map(|f| &f.file)) {
        if !files.contains_key(f) {
            files.insert(f.clone(), index_file(&format!("{repo}/{f}"), &feats));
        }
    }
    // items
    let mut items_src = String::new();
    for it in &unit.items {
        let ix = &files[&it.file];
        let Some(item) = ix.items.get(&it.name) else { fail("anchor", format!("item {} not in {}", it.name, it.file)) };
        let mut item = item.clone();
        xform::clean_item(&mut item, &it.derives);
        let mut r = xform::Rewriter { unit: &unit, self_ty: None, assoc: &ix.assoc, tn: String::new() };
        r.visit_item_mut(&mut item);
        items_src.push_str(&format!("// @@ITEM {}\n", it.name));
        items_src.push_str(&item.to_token_stream().to_string());
        items_src.push('\n');
    }
    let items_src = rustfmt(&items_src);

    // functions
    let mut bodies = String::new();
    let mut heads: Vec<(String, String)> = vec![]; // prefix (impl .. fn sig), suffix
    let mut calls_all: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut shape: Vec<serde_json::Value> = vec![];
    let mut fns: Vec<FnSpec> = unit.fns.clone();
    // auto-included helpers: called, present in the same file, not contracted, not in prelude
    let known: BTreeSet<String> = fns.iter().map(|f| f.path.clone()).collect();
    let mut helpers: Vec<FnSpec> = vec![];
    let mut seen = known.clone();
    let mut queue: Vec<(String, String)> = fns.iter().map(|f| (f.file.clone(), f.path.clone())).collect();
    while let Some((file, path)) = queue.pop() {
        let ix = &files[&file];
        let Some(f) = ix.fns.get(&path) else { fail("anchor", format!("fn {path} not in {file}")) };
        let mut c = Calls { names: BTreeSet::new() };
        c.visit_block(&f.block);
        let tn = f.self_ty.as_ref().map(type_name).unwrap_or_default();
        for n in &c.names {
            let cand: Vec<String> = if let Some(m) = n.strip_prefix('.') {
                ix.fns.keys().filter(|k| k.ends_with(&format!("::{m}")) && !k.contains('<')).cloned().collect()
            } else if let Some(m) = n.strip_prefix("Self::") {
                vec![format!("{tn}::{m}")]
            } else {
                vec![n.clone()]
            };
            for k in cand {
                if ix.fns.contains_key(&k) && !seen.contains(&k) && !unit.provided(&k) {
                    seen.insert(k.clone());
                    helpers.push(FnSpec::helper(&file, &k));
                    queue.push((file.clone(), k));
                }
            }
        }
    }
    let helper_names: Vec<String> = helpers.iter().map(|h| h.path.clone()).collect();
    helpers.append(&mut fns);
    let fns = helpers;
    for (k, fs) in fns.iter().enumerate() {
        let ix = &files[&fs.file];
        let f = &ix.fns[&fs.path];
        let tn = f.self_ty.as_ref().map(type_name).unwrap_or_default();
        let mut sig = f.sig.clone();
        let mut block = f.block.clone();
        let mut calls = Calls { names: BTreeSet::new() };
        calls.visit_block(&block);
        let mut kinds = Kinds { k: vec![] };
        kinds.visit_block(&block);
        calls_all.insert(fs.path.clone(), calls.names);
        xform::strip_attrs(&mut block);
        xform::strip_attrs_sig(&mut sig);
        {
            let mut r = xform::Rewriter { unit: &unit, self_ty: f.self_ty.clone(), assoc: &ix.assoc, tn: tn.clone() };
            r.visit_block_mut(&mut block);
            r.visit_signature_mut(&mut sig);
        }
        if fs.mutself {
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
                *r = syn::parse_quote!(&mut self);
            }
        }
        let mut m = xform::StrMatch { n: 0 };
        m.visit_block_mut(&mut block);
        let mut fl = xform::ForLoops { n: 0, on: unit.desugar_for };
        fl.visit_block_mut(&mut block);
        let mut l = xform::Loops { n: 0 };
        l.visit_block_mut(&mut block);
        if fs.loops.len() != l.n && !fs.is_helper {
            fail("anchor", format!("fn {} has {} loops, contract covers {}", fs.path, l.n, fs.loops.len()));
        }
        let arms = if fs.split && !vacuity { xform::Arms::mark(&mut block) } else { 0 };
        shape.push(json!({"fn": fs.path, "loops": l.n, "kinds": kinds.k, "arms": arms, "helper": fs.is_helper}));
        let ent: syn::Stmt = syn::parse_str("__vp_entry!();").unwrap();
        block.stmts.insert(0, ent);
        bodies.push_str(&format!("// @@FN {k}\nfn __vp_body() {}\n", block.to_token_stream()));
        // header text
        let mut h = String::new();
        let mut suffix = String::from("\n");
        if let Some(st) = &f.self_ty {
            let (ig, _, wc) = f.generics.split_for_impl();
            let mut st = st.clone();
            let mut r = xform::Rewriter { unit: &unit, self_ty: None, assoc: &ix.assoc, tn: tn.clone() };
            r.visit_type_mut(&mut st);
            h.push_str(&format!("impl {} {} {} {{\n", ig.to_token_stream(), st.to_token_stream(), wc.to_token_stream()));
            suffix = String::from("}\n");
        }
        for at in &fs.attrs { h.push_str(&format!("{at}\n")); }
        let (ig, _, wc) = sig.generics.split_for_impl();
        let args = sig.inputs.to_token_stream().to_string();
        let name = fs.rename.clone().unwrap_or(sig.ident.to_string());
        let ret = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", fs.ret, t.to_token_stream()),
        };
        h.push_str(&format!("pub fn {name}{}({args}){ret} {}\n{}\n", ig.to_token_stream(), wc.to_token_stream(), fs.spec));
        heads.push((h, suffix));
    }
    let bodies = rustfmt(&bodies);
    // split
    let mut texts: Vec<String> = vec![String::new(); fns.len()];
    let mut cur: Option<usize> = None;
    for line in bodies.lines() {
        if let Some(n) = line.strip_prefix("// @@FN ") {
            cur = Some(n.trim().parse().unwrap());
            continue;
        }
        if let Some(c) = cur {
            texts[c].push_str(line);
            texts[c].push('\n');
        }
    }
    let mut out = String::new();
    out.push_str(&unit.header);
    out.push_str("\nverus! {\npub mod vp {\n#[allow(unused_imports)]\nuse super::*;\n");
    out.push_str(&unit.axioms);
    out.push_str("} // mod vp\nuse vp::*;\n");
    if !unit.broadcasts.is_empty() { out.push_str(&format!("broadcast use {{{}}};\n", unit.broadcasts.join(", "))); }
    out.push_str(&unit.prelude);
    out.push('\n');
    out.push_str(&items_src);
    out.push('\n');
    out.push_str(&unit.mid);
    out.push('\n');
    let mut map = vec![];
    for (k, fs) in fns.iter().enumerate() {
        let start = out.lines().count() + 1;
        let mut body = texts[k].trim_start().to_string();
        body = body.strip_prefix("fn __vp_body()").unwrap_or_else(|| fail("internal", "body".into())).to_string();
        body = subst(&body, fs, vacuity, arm);
        out.push_str(&format!("// ==== {} ({})\n", fs.path, fs.file));
        out.push_str(&heads[k].0);
        out.push_str(body.trim_start());
        out.push_str(&heads[k].1);
        let end = out.lines().count();
        map.push(json!({"fn": fs.path, "file": fs.file, "start": start, "end": end, "helper": fs.is_helper, "props": fs.props}));
    }
    out.push_str(&unit.tail);
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&a[3], &out).unwrap();
    std::fs::write(
        &a[4],
        serde_json::to_string_pretty(&json!({
            "unit": unit.name, "functions": map, "helpers": helper_names, "rewrites": unit.rules_text, "shape": shape,
            "calls": calls_all,
        }))
        .unwrap(),
    )
    .unwrap();
}

fn subst(body: &str, fs: &FnSpec, vac: bool, arm: usize) -> String {
    let mut out: Vec<String> = vec![];
    for line in body.lines() {
        let t = line.trim();
        if t == "__vp_entry!();" {
            if vac && !fs.is_helper { out.push("assert(false); // VACUITY".into()); }
            out.push(fs.entry.clone());
        } else if let Some(n) = t.strip_prefix("__vp_loop!(").and_then(|x| x.strip_suffix(");")) {
            let n: usize = n.parse().unwrap();
            let empty = Default::default();
            let l = fs.loops.get(&n).unwrap_or(&empty);
            let mut prev = out.pop().unwrap();
            let b = prev.rfind('{').unwrap_or_else(|| fail("internal", format!("loop brace: {prev}")));
            prev.truncate(b);
            out.push(prev);
            out.push(l.inv.clone());
            out.push("{".into());
            out.push(l.head.clone());
        } else if let Some(n) = t.strip_prefix("__vp_arm!(").and_then(|x| x.strip_suffix(");")) {
            let n: usize = n.parse().unwrap();
            out.push(if n == arm { "// this arm is decided in this run".into() } else { "assume(false); // vp-arm: decided in run ".to_string() + &n.to_string() });
        } else if let Some(n) = t.strip_prefix("__vp_foot!(").and_then(|x| x.strip_suffix(");")) {
            let n: usize = n.parse().unwrap();
            if let Some(l) = fs.loops.get(&n) { out.push(l.foot.clone()); }
        } else if let Some(n) = t.strip_prefix("__vp_before!(").and_then(|x| x.strip_suffix(");")) {
            let n: usize = n.parse().unwrap();
            if let Some(l) = fs.loops.get(&n) { out.push(l.before.clone()); }
        } else if let Some(n) = t.strip_prefix("__vp_after!(").and_then(|x| x.strip_suffix(");")) {
            let n: usize = n.parse().unwrap();
            if let Some(l) = fs.loops.get(&n) { out.push(l.after.clone()); }
        } else {
            out.push(line.to_string());
        }
    }
    out.retain(|l| !l.trim().is_empty());
    out.join("\n") + "\n"
}

#[allow(dead_code)]
fn _u(_: &Unit) {}
