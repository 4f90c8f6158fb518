//! Mechanical extraction of the functions under contract from /repo's sources, merged with the
//! contract overlays, into one file for Verus. See DESIGN.md section "Extraction" for the rules.

mod body;
mod derived;
mod overlay;

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

use overlay::{FnOverlay, Module};
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;

#[derive(Debug, Clone)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
}

#[derive(Debug, Clone, Default, serde::Serialize, serde::Deserialize)]
pub struct Shape {
    pub names: Vec<String>,
    pub skeleton: String,
}

pub struct Out {
    pub functions: Vec<Value>,
    pub lost: Vec<Value>,
    pub dropped: Vec<Value>,
    pub rewrites: BTreeMap<String, usize>,
}

pub struct Ctx<'a> {
    pub src: &'a str,
    pub file: String,
    pub edits: Vec<Edit>,
    pub out: &'a mut Out,
    pub baseline: &'a BTreeMap<String, Shape>,
    pub recorded: &'a mut BTreeMap<String, Shape>,
    pub force_external: &'a BTreeSet<String>,
    pub module: String,
    pub canary: bool,
    pub self_item: Option<String>,
    pub world: BTreeMap<String, String>,
    pub drop_roots: Vec<String>,
    /// specification functions of the trait impl being extracted: mentioned in its bodies, because
    /// the verifier may otherwise order their definitions after the bodies
    pub mentions: Vec<(String, usize)>,
    /// the derived impls are part of this run
    pub expanded: bool,
}

/// names and numbers of parameters of the methods among some ghost items
fn spec_methods(t: &str) -> Vec<(String, usize)> {
    let mut v = vec![];
    for l in t.lines() {
        if let Some(i) = l.find("spec fn ") {
            let r = &l[i + 8..];
            if let (Some(a), Some(b)) = (r.find('('), r.rfind(") ->")) {
                let ps = &r[a + 1..b];
                let mut depth = 0;
                let mut commas = 0;
                for c in ps.chars() {
                    match c {
                        '(' | '<' | '[' => depth += 1,
                        ')' | '>' | ']' => depth -= 1,
                        ',' if depth == 0 => commas += 1,
                        _ => {}
                    }
                }
                if ps.starts_with("&self") || ps.starts_with("self") {
                    v.push((r[..a].to_string(), commas));
                }
            }
        }
    }
    v
}

pub fn range(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

impl Ctx<'_> {
    pub fn replace(&mut self, start: usize, end: usize, text: impl Into<String>) {
        self.edits.push(Edit { start, end, text: text.into() });
    }
    pub fn insert(&mut self, at: usize, text: impl Into<String>) {
        self.replace(at, at, text)
    }
    pub fn lose(&mut self, func: &str, reason: impl Into<String>) {
        let reason: String = reason.into();
        self.out.lost.push(json!({"file": self.file, "fn": func, "reason": reason}));
    }
    pub fn count(&mut self, rule: &str) {
        *self.out.rewrites.entry(rule.to_string()).or_default() += 1;
    }
    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let (s, e) = range(a.span());
            self.replace(s, e, "");
        }
        if !attrs.is_empty() {
            self.count("attribute or doc comment dropped");
        }
    }
}

/// type or path without lifetimes and spaces
pub fn norm(t: impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            // a following comma belongs to the lifetime
            let mut j = i;
            while j < b.len() && b[j] == ' ' {
                j += 1;
            }
            if j < b.len() && b[j] == ',' {
                i = j + 1;
            }
            continue;
        }
        if b[i] != ' ' {
            out.push(b[i]);
        }
        i += 1;
    }
    out.replace("<>", "")
}

fn impl_key(i: &syn::ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            format!("{} for {}", norm(last), norm(&i.self_ty))
        }
        None => norm(&i.self_ty),
    }
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
}

struct FnParts<'a> {
    attrs: &'a [syn::Attribute],
    vis: Option<&'a syn::Visibility>,
    sig: &'a syn::Signature,
    block: Option<&'a syn::Block>,
    span: proc_macro2::Span,
    in_trait_decl: bool,
    trait_impl: bool,
}

fn extract_fn(cx: &mut Ctx, ov: &mut Module, key: &str, f: FnParts) {
    let full = format!("{}::{}", cx.module, key);
    let o: FnOverlay = match ov.fns.get_mut(key) {
        Some(o) => {
            o.used = true;
            o.clone()
        }
        None => FnOverlay::default(),
    };
    let has = ov.fns.contains_key(key);
    let (s, e) = range(f.span);
    let needs = o.needs_derived && !cx.expanded;
    if let Some(reason) = o.skip.clone().or(needs.then(|| "the derived (de)serialisation is only part of the check of C21".to_string())) {
        cx.replace(s, e, "");
        cx.out.dropped.push(json!({"fn": full, "reason": reason}));
        cx.out.functions.push(json!({"fn": full, "file": cx.file, "status": "dropped", "reason": reason}));
        return;
    }
    cx.attrs(f.attrs);
    let body_start = match f.vis {
        Some(v) => match v {
            syn::Visibility::Inherited => range(f.sig.span()).0,
            _ => range(v.span()).0,
        },
        None => range(f.sig.span()).0,
    };
    let forced = cx.force_external.contains(&full) && f.block.is_some();
    let external = o.external.is_some() || forced;
    let mut pre = format!("\n//@@FN {full}\n{}", o.attrs);
    if external {
        pre.push_str("#[verifier::external_body]\n");
    }
    if !f.in_trait_decl && !f.trait_impl && matches!(f.vis, Some(syn::Visibility::Inherited)) {
        pre.push_str("pub ");
        cx.count("visibility widened");
    }
    cx.insert(body_start, pre);
    cx.insert(e, "\n//@@END\n");
    if let Some(p) = &o.params {
        // ghost parameters appended
        let at = range(f.sig.paren_token.span.close()).0;
        let needs_comma = !f.sig.inputs.is_empty() && !f.sig.inputs.trailing_punct();
        cx.insert(at, format!("{}{}", if needs_comma { ", " } else { "" }, p));
        cx.count("ghost parameter added");
    }
    // return value
    if let syn::ReturnType::Type(_, ty) = &f.sig.output {
        let (ts, te) = range(ty.span());
        let mut text = cx.src[ts..te].to_string();
        if let Some(i) = &cx.self_item {
            text = text.replace("Self::Item", i);
        }
        if let syn::Type::ImplTrait(it) = &**ty {
            match body::iterator_item(it) {
                Some((lt, item)) => {
                    text = format!("std::slice::Iter<{}, {}>", lt.unwrap_or("'_".into()), item);
                    cx.count("opaque iterator return type made concrete (slice::Iter)");
                }
                None => cx.lose(&full, "opaque return type that is not an iterator of references"),
            }
        }
        if let Some(r) = &o.ret {
            cx.replace(ts, te, format!("({r}: {text})"));
        } else if text != cx.src[ts..te] {
            cx.replace(ts, te, text);
        }
    }
    let (names, loops_found) = match f.block {
        Some(b) => (body::binding_names(f.sig, b), body::count_loops(b)),
        None => (body::sig_names(f.sig), 0),
    };
    let (skeleton, calls) = f.block.map(body::skeleton).unwrap_or_default();
    let same_shape = cx.baseline.get(&full).map_or(true, |b| b.skeleton == skeleton);
    cx.recorded.insert(full.clone(), Shape { names: names.clone(), skeleton });
    let rename = body::rename_map(cx.baseline.get(&full).map(|b| &b.names), &names);
    let tr = |t: &str| body::apply_rename(t, &rename);
    let mut spec = tr(&o.spec);
    if let syn::ReturnType::Type(_, ty) = &f.sig.output {
        if f.in_trait_decl && norm(ty) == "Self" && f.sig.generics.where_clause.is_none() {
            spec = format!("where Self: Sized\n{spec}");
            cx.count("`Self: Sized` bound added to a trait function returning Self");
        }
    }
    match f.block {
        Some(b) => {
            let (bs, _) = range(b.brace_token.span.open());
            if !spec.trim().is_empty() {
                cx.insert(bs, format!("\n{spec}\n"));
            }
            if !external {
                body::rewrite(cx, &full, &o, b, &tr);
                if f.trait_impl && f.sig.receiver().is_some() && !cx.mentions.is_empty() && !o.spec.contains("decreases") {
                    let at = range(b.brace_token.span.open()).1;
                    let t: String = cx
                        .mentions
                        .iter()
                        .map(|(n, k)| format!(" let _ = self.{n}({});", vec!["arbitrary()"; *k].join(", ")))
                        .collect();
                    cx.insert(at, format!("\nproof {{{t} }}\n"));
                }
            } else {
                body::rewrite_external(cx, b);
            }
        }
        None => {
            // trait method declaration without a body: before the `;`
            if !spec.trim().is_empty() {
                let at = e - 1;
                cx.insert(at, format!("\n{spec}\n"));
            }
        }
    }
    let status = if forced {
        "forced-external"
    } else if o.external.is_some() {
        "trusted"
    } else if !has {
        "uncontracted"
    } else if f.block.is_none() {
        "declaration"
    } else {
        "contract"
    };
    cx.out.functions.push(json!({"fn": full, "file": cx.file, "status": status, "loops": loops_found,
        "contract": !o.spec.trim().is_empty(), "reason": o.external, "calls": calls, "same_shape": same_shape}));
}

/// a text as tokens: layout and comments do not matter, the inside of literals does
fn flat_tokens(x: &str) -> String {
    x.parse::<proc_macro2::TokenStream>().map(|t| t.to_string()).unwrap_or_default()
}

fn extract_file(cx: &mut Ctx, ov: &mut Module, file: &syn::File) {
    for item in &file.items {
        let (s, e) = range(item.span());
        match item {
            syn::Item::Use(_) => {
                cx.replace(s, e, "");
                cx.count("use declaration replaced by the overlay's");
            }
            syn::Item::Mod(m) => {
                cx.replace(s, e, "");
                if is_test(&m.attrs) {
                    cx.count("test module dropped");
                }
            }
            syn::Item::Macro(_) => {
                cx.replace(s, e, "");
                let t: String = cx.src[s..e].chars().take(60).collect();
                cx.out.dropped.push(json!({"item": t, "reason": "item macro"}));
                // statics whose meaning a contract assumes: their text is pinned
                let flat = flat_tokens;
                let text = flat(&cx.src[s..e]);
                let keys: Vec<String> = ov.pins.keys().filter(|k| k.starts_with("macro ")).cloned().collect();
                for k in keys {
                    if text.contains(&flat(&ov.pins[&k])) {
                        ov.pins.remove(&k);
                    }
                }
            }
            syn::Item::Const(c) => {
                let key = format!("const {}", c.ident);
                if let Some(r) = ov.skip_items.get(&key) {
                    cx.replace(s, e, "");
                    cx.out.dropped.push(json!({"item": key, "reason": r}));
                } else if let Some(p) = ov.pins.get(&key) {
                    // a text whose meaning a contract assumes
                    let flat = flat_tokens;
                    if flat(&cx.src[s..e]) == flat(p) {
                        ov.pins.remove(&key);
                    }
                    cx.replace(s, e, "");
                    cx.out.dropped.push(json!({"item": key, "reason": "text a contract gives the meaning of"}));
                } else {
                    cx.attrs(&c.attrs);
                }
            }
            syn::Item::Type(t) => {
                cx.attrs(&t.attrs);
            }
            syn::Item::Struct(st) => {
                let key = format!("struct {}", st.ident);
                if let Some(r) = ov.skip_items.get(&key) {
                    cx.replace(s, e, "");
                    cx.out.dropped.push(json!({"item": key, "reason": r}));
                    continue;
                }
                type_item(cx, ov, &key, &st.attrs, s, &st.vis);
                for f in &st.fields {
                    cx.attrs(&f.attrs);
                    if matches!(f.vis, syn::Visibility::Inherited) {
                        let at = match &f.ident {
                            Some(i) => range(i.span()).0,
                            None => range(f.ty.span()).0,
                        };
                        cx.insert(at, "pub ");
                        cx.count("visibility widened");
                    }
                }
            }
            syn::Item::Enum(en) => {
                let key = format!("enum {}", en.ident);
                if let Some(r) = ov.skip_items.get(&key) {
                    cx.replace(s, e, "");
                    cx.out.dropped.push(json!({"item": key, "reason": r}));
                    continue;
                }
                type_item(cx, ov, &key, &en.attrs, s, &en.vis);
                for v in &en.variants {
                    cx.attrs(&v.attrs);
                }
            }
            syn::Item::Fn(f) => extract_fn(
                cx,
                ov,
                &f.sig.ident.to_string(),
                FnParts {
                    attrs: &f.attrs,
                    vis: Some(&f.vis),
                    sig: &f.sig,
                    block: Some(&f.block),
                    span: f.span(),
                    in_trait_decl: false,
                    trait_impl: false,
                },
            ),
            syn::Item::Trait(t) => {
                let key = format!("trait {}", t.ident);
                if let Some(r) = ov.skip_items.get(&key) {
                    cx.replace(s, e, "");
                    cx.out.dropped.push(json!({"item": key, "reason": r}));
                    continue;
                }
                cx.attrs(&t.attrs);
                if let Some(a) = ov.item_attrs.get(&key) {
                    cx.insert(s, a.clone());
                }
                if let Some(g) = ov.items.remove(&key) {
                    cx.insert(range(t.brace_token.span.open()).1, format!("\n{g}\n"));
                }
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        extract_fn(
                            cx,
                            ov,
                            &format!("{key}::{}", f.sig.ident),
                            FnParts {
                                attrs: &f.attrs,
                                vis: None,
                                sig: &f.sig,
                                block: f.default.as_ref(),
                                span: f.span(),
                                in_trait_decl: true,
                                trait_impl: false,
                            },
                        )
                    }
                }
            }
            syn::Item::Impl(im) => {
                let key = impl_key(im);
                let ikey = format!("impl {key}");
                if let Some(r) = ov.skip_items.get(&ikey) {
                    cx.replace(s, e, "");
                    cx.out.dropped.push(json!({"item": ikey, "reason": r}));
                    continue;
                }
                cx.attrs(&im.attrs);
                let mut inherent = inherent_iterator(cx, im);
                if ov.inherent.contains(&key) {
                    if let Some((_, p, f)) = &im.trait_ {
                        cx.replace(range(p.span()).0, range(f.span()).1, "");
                        cx.count("trait impl turned into an inherent impl");
                        inherent = true;
                    }
                }
                if let Some(g) = ov.items.remove(&ikey) {
                    if im.trait_.is_some() && !inherent {
                        cx.mentions = spec_methods(&g);
                    }
                    cx.insert(range(im.brace_token.span.open()).1, format!("\n{g}\n"));
                }
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        extract_fn(
                            cx,
                            ov,
                            &format!("{key}::{}", f.sig.ident),
                            FnParts {
                                attrs: &f.attrs,
                                vis: Some(&f.vis),
                                sig: &f.sig,
                                block: Some(&f.block),
                                span: f.span(),
                                in_trait_decl: false,
                                trait_impl: im.trait_.is_some() && !inherent,
                            },
                        )
                    }
                }
                cx.self_item = None;
                cx.mentions.clear();
            }
            _ => {
                cx.lose("(item)", format!("unsupported item: {}", &cx.src[s..e.min(s + 60)]));
                cx.replace(s, e, "");
            }
        }
    }
}

/// `impl Iterator for X { type Item = Y; fn next .. }` becomes `impl X { fn next .. }` so that `next`
/// can have a precondition; `Self::Item` is replaced by `Y`
fn inherent_iterator(cx: &mut Ctx, im: &syn::ItemImpl) -> bool {
    let Some((_, p, f)) = &im.trait_ else { return false };
    if norm(p.segments.last().unwrap()) != "Iterator" {
        return false;
    }
    cx.replace(range(p.span()).0, range(f.span()).1, "");
    cx.count("`impl Iterator` turned into an inherent impl");
    let mut item = String::new();
    for i in &im.items {
        if let syn::ImplItem::Type(t) = i {
            let (s, e) = range(t.ty.span());
            item = cx.src[s..e].to_string();
            let (s, e) = range(t.span());
            cx.replace(s, e, "");
        }
    }
    struct P<'a, 'b> {
        cx: &'a mut Ctx<'b>,
        item: String,
    }
    impl<'ast> syn::visit::Visit<'ast> for P<'_, '_> {
        fn visit_path(&mut self, p: &'ast syn::Path) {
            if norm(p) == "Self::Item" {
                let (s, e) = range(p.span());
                let t = self.item.clone();
                self.cx.replace(s, e, t);
            } else {
                syn::visit::visit_path(self, p);
            }
        }
    }
    cx.self_item = Some(item.clone());
    let mut v = P { cx, item };
    for i in &im.items {
        if let syn::ImplItem::Fn(f) = i {
            syn::visit::Visit::visit_signature(&mut v, &f.sig);
            syn::visit::Visit::visit_block(&mut v, &f.block);
        }
    }
    true
}

fn type_item(cx: &mut Ctx, ov: &mut Module, key: &str, attrs: &[syn::Attribute], s: usize, vis: &syn::Visibility) {
    let d = derives(attrs);
    if let Some(p) = ov.pins.remove(key) {
        for want in p.split_whitespace() {
            if !d.iter().any(|x| x == want) {
                cx.lose(key, format!("{key} no longer derives {want}"));
            }
        }
    }
    cx.attrs(attrs);
    let mut pre = ov.item_attrs.get(key).cloned().unwrap_or_default();
    let keep: Vec<&str> = ["Clone", "Copy"].into_iter().filter(|k| d.iter().any(|x| x == k)).collect();
    if keep.len() == 2 {
        pre.push_str("#[derive(Clone, Copy)]\n");
    }
    if matches!(vis, syn::Visibility::Inherited) {
        pre.push_str("pub ");
    }
    // after the attributes: before `pub` / `struct`
    let at = attrs.iter().map(|a| range(a.span()).1).max().unwrap_or(s);
    cx.insert(at, format!("\n{pre}"));
}

pub fn apply(src: &str, edits: &mut Vec<Edit>) -> Result<String, String> {
    // stable by start; insertions at a position come before a replacement starting there
    let mut idx: Vec<usize> = (0..edits.len()).collect();
    idx.sort_by_key(|i| (edits[*i].start, edits[*i].end != edits[*i].start, *i));
    // drop edits nested inside a replaced range
    let mut out = String::new();
    let mut pos = 0;
    for i in idx {
        let e = &edits[i];
        if e.start < pos {
            continue; // inside something already replaced
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..]);
    Ok(out)
}

fn strip_comments(s: &str) -> String {
    // plain comments of the source are dropped; our own markers stay
    s.lines()
        .filter(|l| {
            let t = l.trim_start();
            !(t.starts_with("//") && !t.starts_with("//@"))
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: extract REPO CONTRACTS OUT.rs REPORT.json [--record] [--external a,b]");
        std::process::exit(2);
    }
    let (repo, contracts, out_rs, report) = (&args[1], &args[2], &args[3], &args[4]);
    let canary = args.iter().any(|a| a == "--canary");
    let record = args.iter().any(|a| a == "--record");
    let force_external: BTreeSet<String> = args
        .iter()
        .position(|a| a == "--external")
        .map(|i| args[i + 1].split('|').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
        .unwrap_or_default();
    // the compiler's expansion of the crate, with serde's versioned private module under one name
    let expanded: Option<(String, syn::File)> = args.iter().position(|a| a == "--expanded").map(|i| {
        let t = fs::read_to_string(&args[i + 1]).unwrap_or_default();
        let mut s = String::new();
        let mut rest = t.as_str();
        while let Some(p) = rest.find("_serde::__private") {
            let e = p + "_serde::__private".len();
            s.push_str(&rest[..e]);
            rest = rest[e..].trim_start_matches(|c: char| c.is_ascii_digit());
        }
        s.push_str(rest);
        match syn::parse_file(&s) {
            Ok(f) => (s, f),
            Err(_) => (String::new(), syn::parse_file("").unwrap()),
        }
    });
    let order: Vec<String> = fs::read_to_string(Path::new(contracts).join("ORDER"))
        .expect("contracts/ORDER")
        .split_whitespace()
        .map(|s| s.to_string())
        .collect();
    let base_path = Path::new(contracts).join("locals.json");
    let baseline: BTreeMap<String, Shape> = fs::read_to_string(&base_path)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or_default();
    let empty = BTreeMap::new();
    let mut recorded = BTreeMap::new();
    let mut out = Out { functions: vec![], lost: vec![], dropped: vec![], rewrites: BTreeMap::new() };
    let mut text = String::from(
        "#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_must_use, unused_braces, unreachable_code, unused_assignments, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n",
    );
    for name in &order {
        let p = Path::new(contracts).join(format!("{name}.vc"));
        let t = fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p:?}: {e}"));
        let mut ov = overlay::parse(&t, p.to_str().unwrap()).unwrap_or_else(|e| {
            eprintln!("{e}");
            std::process::exit(2)
        });
        if ov.derived_only && expanded.is_none() {
            continue;
        }
        let mut body_text = String::new();
        let mut derived_text = String::new();
        if let Some((text, file)) = &expanded {
            derived_text.push_str(&ov.json);
            for ty in &ov.derives {
                let w = derived::Wanted { module: &ov.name, ty, canary, forced: &|k| force_external.contains(k) };
                match derived::derive(file, text, &w) {
                    Ok(d) => {
                        derived_text.push_str(&d.text);
                        for r in d.rewrites {
                            *out.rewrites.entry(r.to_string()).or_default() += 1;
                        }
                        for k in d.functions {
                            let forced = force_external.contains(&k);
                            out.functions.push(json!({"fn": k, "file": "(expansion of #[derive])", "status": if forced { "forced-external" } else { "contract" },
                                "loops": 0, "contract": true, "reason": null, "calls": [], "same_shape": true}));
                        }
                    }
                    Err(e) => {
                        out.lost.push(json!({"file": ov.source, "fn": format!("{}::derive {ty}", ov.name), "reason": e}));
                        // the contracts that speak of the value need one
                        derived_text.push_str(&format!("pub mod json_{ty} {{ }}\n"));
                    }
                }
            }
        }
        if let Some(srcs) = ov.source.clone() {
            for srcf in srcs.split_whitespace() {
                let sp = Path::new(repo).join(srcf);
                let src = match fs::read_to_string(&sp) {
                    Ok(s) => s,
                    Err(e) => {
                        out.lost.push(json!({"file": srcf, "fn": "(file)", "reason": e.to_string()}));
                        continue;
                    }
                };
                let file = match syn::parse_file(&src) {
                    Ok(f) => f,
                    Err(e) => {
                        out.lost.push(json!({"file": srcf, "fn": "(file)", "reason": e.to_string()}));
                        continue;
                    }
                };
                let mut cx = Ctx {
                    src: &src,
                    file: srcf.to_string(),
                    edits: vec![],
                    out: &mut out,
                    baseline: if record { &empty } else { &baseline },
                    recorded: &mut recorded,
                    force_external: &force_external,
                    module: ov.name.clone(),
                    canary,
                    self_item: None,
                    world: ov.world.clone(),
                    drop_roots: ov.drop_roots.clone(),
                    mentions: vec![],
                    expanded: expanded.is_some(),
                };
                // inner attributes
                let inner: Vec<_> = file.attrs.iter().map(|a| range(a.span())).collect();
                for (s, e) in inner {
                    cx.replace(s, e, "");
                }
                extract_file(&mut cx, &mut ov, &file);
                let mut edits = std::mem::take(&mut cx.edits);
                body_text.push_str(&apply(&src, &mut edits).unwrap());
                body_text.push('\n');
            }
        }
        for (k, f) in &ov.fns {
            if !f.used {
                out.lost.push(json!({"file": ov.source, "fn": format!("{}::{k}", ov.name), "reason": "the function under contract is gone"}));
            }
        }
        for k in ov.items.keys().chain(ov.pins.keys()) {
            out.lost.push(json!({"file": ov.source, "fn": format!("{}::{k}", ov.name), "reason": "the item under contract is gone"}));
        }
        text.push_str(&format!(
            "//@@MODULE {}\npub mod {} {{\nuse vstd::prelude::*;\n{}\n{}\n{}\n{}\n{}\n}}\n",
            ov.name,
            ov.name,
            ov.uses,
            ov.top,
            strip_comments(&body_text),
            ov.bottom,
            derived_text
        ));
    }
    text.push_str("} // verus!\nfn main() {}\n");
    fs::write(out_rs, &text).unwrap();
    if record {
        fs::write(&base_path, serde_json::to_string_pretty(&recorded).unwrap() + "\n").unwrap();
    }
    let v = json!({"functions": out.functions, "lost": out.lost, "dropped": out.dropped, "rewrites": out.rewrites});
    fs::write(report, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}
