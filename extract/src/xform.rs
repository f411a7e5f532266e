use crate::spec::{Rule, Unit};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};

// ---------- cfg ----------
pub struct Cfg<'a> { pub feats: &'a BTreeSet<String> }

fn eval_meta(m: &syn::Meta, feats: &BTreeSet<String>) -> bool {
    match m {
        syn::Meta::Path(p) => p.is_ident("unix") || p.is_ident("debug_assertions"),
        syn::Meta::NameValue(nv) => {
            let val = nv.value.to_token_stream().to_string().replace('"', "");
            if nv.path.is_ident("feature") { feats.contains(&val) } else { nv.path.is_ident("target_has_atomic") }
        }
        syn::Meta::List(l) => {
            let inner: syn::punctuated::Punctuated<syn::Meta, syn::Token![,]> =
                l.parse_args_with(syn::punctuated::Punctuated::parse_terminated).unwrap();
            if l.path.is_ident("not") { !inner.iter().any(|m| eval_meta(m, feats)) }
            else if l.path.is_ident("any") { inner.iter().any(|m| eval_meta(m, feats)) }
            else { inner.iter().all(|m| eval_meta(m, feats)) }
        }
    }
}
fn keep(attrs: &[syn::Attribute], feats: &BTreeSet<String>) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            let m: syn::Meta = a.parse_args().unwrap();
            eval_meta(&m, feats)
        } else { true }
    })
}
fn expr_attrs(e: &syn::Expr) -> Vec<syn::Attribute> {
    macro_rules! g { ($($v:ident),*) => { match e { $(syn::Expr::$v(x) => x.attrs.clone(),)* _ => vec![] } } }
    g!(Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Const, Continue, Field, ForLoop, Group, If, Index, Infer, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Repeat, Return, Struct, Try, TryBlock, Tuple, Unary, Unsafe, While, Yield)
}
pub fn expr_attrs_mut(e: &mut syn::Expr) -> Option<&mut Vec<syn::Attribute>> {
    macro_rules! g { ($($v:ident),*) => { match e { $(syn::Expr::$v(x) => Some(&mut x.attrs),)* _ => None } } }
    g!(Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Const, Continue, Field, ForLoop, Group, If, Index, Infer, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Repeat, Return, Struct, Try, TryBlock, Tuple, Unary, Unsafe, While, Yield)
}
fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    match i {
        syn::Item::Fn(x) => &x.attrs, syn::Item::Impl(x) => &x.attrs, syn::Item::Struct(x) => &x.attrs,
        syn::Item::Enum(x) => &x.attrs, syn::Item::Mod(x) => &x.attrs, syn::Item::Use(x) => &x.attrs,
        syn::Item::Const(x) => &x.attrs, syn::Item::Static(x) => &x.attrs, syn::Item::Type(x) => &x.attrs,
        syn::Item::Trait(x) => &x.attrs, syn::Item::Macro(x) => &x.attrs, _ => &[],
    }
}
impl<'a> VisitMut for Cfg<'a> {
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.items.retain(|i| keep(item_attrs(i), self.feats));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, items)) = &mut m.content { items.retain(|i| keep(item_attrs(i), self.feats)); }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut syn::ItemImpl) {
        m.items.retain(|i| keep(match i { syn::ImplItem::Fn(x) => &x.attrs, syn::ImplItem::Const(x) => &x.attrs, syn::ImplItem::Type(x) => &x.attrs, _ => &[] }, self.feats));
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            syn::Stmt::Local(l) => keep(&l.attrs, self.feats),
            syn::Stmt::Item(i) => keep(item_attrs(i), self.feats),
            syn::Stmt::Expr(e, _) => keep(&expr_attrs(e), self.feats),
            syn::Stmt::Macro(m) => keep(&m.attrs, self.feats),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| keep(&a.attrs, self.feats));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_fields_named_mut(&mut self, f: &mut syn::FieldsNamed) {
        f.named = f.named.clone().into_iter().filter(|x| keep(&x.attrs, self.feats)).collect();
        visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_item_enum_mut(&mut self, f: &mut syn::ItemEnum) {
        f.variants = f.variants.clone().into_iter().filter(|x| keep(&x.attrs, self.feats)).collect();
        visit_mut::visit_item_enum_mut(self, f);
    }
    fn visit_expr_struct_mut(&mut self, f: &mut syn::ExprStruct) {
        f.fields = f.fields.clone().into_iter().filter(|x| keep(&x.attrs, self.feats)).collect();
        visit_mut::visit_expr_struct_mut(self, f);
    }
    fn visit_signature_mut(&mut self, s: &mut syn::Signature) {
        s.inputs = s.inputs.clone().into_iter().filter(|x| match x { syn::FnArg::Typed(t) => keep(&t.attrs, self.feats), _ => true }).collect();
        visit_mut::visit_signature_mut(self, s);
    }
}

// ---------- attribute stripping ----------
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear(); }
}
pub fn strip_attrs(b: &mut syn::Block) { Strip.visit_block_mut(b) }
pub fn strip_attrs_sig(s: &mut syn::Signature) { Strip.visit_signature_mut(s) }

pub fn clean_item(i: &mut syn::Item, derives: &[String]) {
    let pubv: syn::Visibility = syn::parse_quote!(pub);
    Strip.visit_item_mut(i);
    let d: Vec<syn::Path> = derives.iter().filter(|x| !x.starts_with('#')).map(|s| syn::parse_str(s).unwrap()).collect();
    let mut at: Vec<syn::Attribute> = if d.is_empty() { vec![] } else { vec![syn::parse_quote!(#[derive(#(#d),*)])] };
    for x in derives.iter().filter(|x| x.starts_with('#')) {
        let ts: TokenStream = x.trim_start_matches('#').parse().unwrap();
        at.push(syn::parse_quote!(#[#ts]));
    }
    match i {
        syn::Item::Struct(s) => {
            s.attrs = at; s.vis = pubv.clone();
            for f in s.fields.iter_mut() { f.vis = pubv.clone(); }
        }
        syn::Item::Enum(s) => { s.attrs = at; s.vis = pubv; }
        syn::Item::Const(s) => { s.vis = pubv; }
        syn::Item::Static(s) => { s.vis = pubv; }
        syn::Item::Type(s) => { s.vis = pubv; }
        _ => {}
    }
}

// ---------- rewrite rules ----------
type Binds = HashMap<String, Vec<TokenTree>>;
fn toks(ts: TokenStream) -> Vec<TokenTree> { ts.into_iter().collect() }
fn tt_eq(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}
fn strip_trailing_comma(v: &[TokenTree]) -> &[TokenTree] {
    if let Some(TokenTree::Punct(p)) = v.last() { if p.as_char() == ',' { return &v[..v.len() - 1]; } }
    v
}
/// `$x` in a pattern is the two tokens `$` `x`.
fn matches(pat: &[TokenTree], t: &[TokenTree], b: &mut Binds, ok: &dyn Fn(&[TokenTree]) -> bool) -> bool {
    if pat.is_empty() { return t.is_empty(); }
    if let TokenTree::Punct(p) = &pat[0] {
        if p.as_char() == '$' {
            let TokenTree::Ident(name) = &pat[1] else { panic!("bad metavar") };
            let name = name.to_string();
            if let Some(prev) = b.get(&name).cloned() {
                let ps: TokenStream = prev.iter().cloned().collect();
                for k in 1..=t.len() {
                    let ts: TokenStream = t[..k].iter().cloned().collect();
                    if ts.to_string() == ps.to_string() && matches(&pat[2..], &t[k..], b, ok) { return true; }
                }
                return false;
            }
            for k in 1..=t.len() {
                if !ok(&t[..k]) { continue; }
                let mut bb = b.clone();
                bb.insert(name.clone(), t[..k].to_vec());
                if matches(&pat[2..], &t[k..], &mut bb, ok) { *b = bb; return true; }
            }
            return false;
        }
    }
    if t.is_empty() { return false; }
    match (&pat[0], &t[0]) {
        (TokenTree::Group(g), TokenTree::Group(h)) => {
            if g.delimiter() != h.delimiter() { return false; }
            let a = toks(g.stream());
            let c = toks(h.stream());
            let mut bb = b.clone();
            if matches(strip_trailing_comma(&a), strip_trailing_comma(&c), &mut bb, ok) && matches(&pat[1..], &t[1..], &mut bb, ok) { *b = bb; return true; }
            false
        }
        (x, y) => tt_eq(x, y) && matches(&pat[1..], &t[1..], b, ok),
    }
}
fn instantiate(rep: TokenStream, b: &Binds) -> TokenStream {
    let v = toks(rep);
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let TokenTree::Ident(n) = &v[i + 1] else { panic!() };
                out.extend(b[&n.to_string()].iter().cloned());
                i += 2;
                continue;
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), instantiate(g.stream(), b));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
fn ungroup(ts: TokenStream) -> TokenStream {
    let mut out = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => out.extend(toks(ungroup(g.stream()))),
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), ungroup(g.stream())))),
            x => out.push(x),
        }
    }
    out.into_iter().collect()
}

pub struct Rewriter<'a> {
    pub unit: &'a Unit, pub self_ty: Option<syn::Type>, pub assoc: &'a HashMap<String, syn::Type>, pub tn: String,
}
fn apply(rules: &[Rule], ts: TokenStream, ok: &dyn Fn(&[TokenTree]) -> bool) -> Option<TokenStream> {
    let t = toks(ungroup(ts));
    for r in rules {
        let p = toks(r.pat.parse::<TokenStream>().unwrap());
        let mut b = Binds::new();
        if matches(&p, &t, &mut b, ok) {
            return Some(instantiate(r.rep.parse::<TokenStream>().unwrap(), &b));
        }
    }
    None
}
impl<'a> VisitMut for Rewriter<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let ok = |t: &[TokenTree]| syn::parse2::<syn::Expr>(t.iter().cloned().collect()).is_ok();
        let mut guard = 0;
        while let Some(n) = apply(&self.unit.rules, e.to_token_stream(), &ok) {
            match syn::parse2::<syn::Expr>(n.clone()) {
                Ok(x) => *e = x,
                Err(er) => crate::fail("rewrite", format!("{n}: {er}")),
            }
            guard += 1;
            if guard > 20 { break; }
        }
    }
    fn visit_type_mut(&mut self, e: &mut syn::Type) {
        visit_mut::visit_type_mut(self, e);
        let s = e.to_token_stream().to_string().replace(' ', "");
        if let Some(n) = s.strip_prefix("Self::") {
            if let Some(t) = self.assoc.get(&format!("{}::{n}", self.tn)) { *e = t.clone(); }
        }
        let ok = |t: &[TokenTree]| syn::parse2::<syn::Type>(t.iter().cloned().collect()).is_ok();
        let mut guard = 0;
        while let Some(n) = apply(&self.unit.trules, e.to_token_stream(), &ok) {
            match syn::parse2::<syn::Type>(n.clone()) {
                Ok(x) => *e = x,
                Err(er) => crate::fail("rewrite", format!("{n}: {er}")),
            }
            guard += 1;
            if guard > 5 { break; }
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if !self.unit.srules.is_empty() {
            let ok = |t: &[TokenTree]| syn::parse2::<syn::Expr>(t.iter().cloned().collect()).is_ok();
            let mut out = vec![];
            for s in b.stmts.drain(..) {
                if let Some(n) = apply(&self.unit.srules, s.to_token_stream(), &ok) {
                    let blk: syn::Block = syn::parse2(quote!({ #n })).unwrap_or_else(|e| crate::fail("rewrite", format!("{n}: {e}")));
                    out.extend(blk.stmts);
                } else { out.push(s); }
            }
            b.stmts = out;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // arguments of expression macros (format!, matches!, vec!) are rewritten when they parse as expressions
        if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            for a in args.iter_mut() { self.visit_expr_mut(a); }
            m.tokens = args.to_token_stream();
        }
    }
}

// ---------- match on string literals -> if / else-if chain (same evaluation order) ----------
pub struct StrMatch { pub n: usize }
fn str_pats(p: &syn::Pat) -> Option<Vec<syn::Expr>> {
    match p {
        syn::Pat::Lit(l) => if let syn::Lit::Str(_) = l.lit { Some(vec![syn::Expr::Lit(l.clone())]) } else { None },
        syn::Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(str_pats(c)?); } Some(v) }
        _ => None,
    }
}
impl VisitMut for StrMatch {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Match(m) = e else { return };
        if !m.arms.iter().any(|a| str_pats(&a.pat).is_some()) { return; }
        let id = syn::Ident::new(&format!("__vp_s{}", self.n), proc_macro2::Span::call_site());
        self.n += 1;
        let scrut = &m.expr;
        let mut chain: Option<TokenStream> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            if let Some(ps) = str_pats(&a.pat) {
                if a.guard.is_some() { crate::fail("unsupported", "guard on string arm".into()); }
                let els = chain.take().unwrap_or_else(|| crate::fail("unsupported", "string match without default".into()));
                chain = Some(quote!(if #(vp_str_eq(#id, #ps))||* { #body } else { #els }));
            } else {
                match &a.pat {
                    syn::Pat::Wild(_) => chain = Some(quote!({ #body })),
                    syn::Pat::Reference(r) if matches!(*r.pat, syn::Pat::Wild(_)) => chain = Some(quote!({ #body })),
                    syn::Pat::Ident(i) => chain = Some(quote!({ let #i = #id; #body })),
                    _ => crate::fail("unsupported", "string match arm".into()),
                }
            }
        }
        let c = chain.unwrap();
        *e = syn::parse2(quote!({ let #id: &str = #scrut; #c })).unwrap();
    }
}

// ---------- for -> while let ----------
pub struct ForLoops { pub n: usize, pub on: bool }
impl VisitMut for ForLoops {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if self.on {
            if let syn::Expr::ForLoop(f) = e {
                let id = syn::Ident::new(&format!("vp_it{}", self.n), proc_macro2::Span::call_site());
                self.n += 1;
                let (p, x, b, l) = (&f.pat, &f.expr, &f.body, &f.label);
                let stmts = &b.stmts;
                *e = syn::parse2(quote!({ let mut #id = vp_into_iter(#x); #l while let Some(#p) = #id.next() { #(#stmts)* } })).unwrap();
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------- loop markers ----------
pub struct Loops { pub n: usize }
fn mark(kind: &str, n: usize) -> syn::Stmt { syn::parse_str(&format!("__vp_{kind}!({n});")).unwrap() }
impl Loops {
    fn body(&mut self, b: &mut syn::Block) {
        let n = self.n;
        self.n += 1;
        visit_mut::visit_block_mut(self, b);
        b.stmts.insert(0, mark("loop", n));
        // the foot marker goes last; a trailing expression statement gets a semicolon
        if let Some(syn::Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
        b.stmts.push(mark("foot", n));
    }
}
impl VisitMut for Loops {
    fn visit_expr_while_mut(&mut self, w: &mut syn::ExprWhile) { self.body(&mut w.body) }
    fn visit_expr_for_loop_mut(&mut self, w: &mut syn::ExprForLoop) { self.body(&mut w.body) }
    fn visit_expr_loop_mut(&mut self, w: &mut syn::ExprLoop) { self.body(&mut w.body) }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let is_loop = matches!(&s, syn::Stmt::Expr(syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_), _));
            let n = self.n;
            self.visit_stmt_mut(&mut s);
            if is_loop {
                out.push(mark("before", n));
                if let syn::Stmt::Expr(syn::Expr::While(_) | syn::Expr::ForLoop(_), semi @ None) = &mut s { *semi = Some(Default::default()); }
                let is_inf = matches!(&s, syn::Stmt::Expr(syn::Expr::Loop(_), _));
                out.push(s);
                if !is_inf { out.push(mark("after", n)); }
            } else { out.push(s); }
        }
        b.stmts = out;
    }
}

// ---------- arm markers: the match with the most arms is verified one arm at a time ----------
pub struct Arms { pub best: usize, pub at: usize, n: usize, place: bool }
impl Arms {
    /// number of arms (0: no match)
    pub fn mark(b: &mut syn::Block) -> usize {
        let mut a = Arms { best: 0, at: 0, n: 0, place: false };
        a.visit_block_mut(b);
        if a.best < 2 { return 0; }
        a.place = true;
        a.n = 0;
        a.visit_block_mut(b);
        a.best
    }
}
impl VisitMut for Arms {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        let k = self.n;
        self.n += 1;
        if !self.place && m.arms.len() > self.best { self.best = m.arms.len(); self.at = k; }
        visit_mut::visit_expr_match_mut(self, m);
        if self.place && k == self.at {
            for (j, a) in m.arms.iter_mut().enumerate() {
                let s = mark("arm", j);
                let body = (*a.body).clone();
                let stmts = match body { syn::Expr::Block(b) if b.label.is_none() => b.block.stmts, e => vec![syn::Stmt::Expr(e, None)] };
                a.body = Box::new(syn::parse2(quote!({ #s #(#stmts)* })).unwrap());
                a.comma = None;
            }
        }
    }
}
