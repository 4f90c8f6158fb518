//! The `Serialize` and `Deserialize` impls that `#[derive]` writes, taken from the compiler's own
//! expansion of the crate and put under contract: they must say and understand the same value.
//!
//! What is dropped: `expecting` (error texts), `visit_u64`, `visit_bytes` and `visit_seq` (JSON
//! text as written by serde_json leads to none of them). What is rewritten: nested items are put
//! into a module of their own, a match on string literals becomes a chain of comparisons,
//! `while let` becomes `loop`/`match`, and a constructor used as a function becomes a closure.

use crate::{apply, norm, range, Edit};
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Derived {
    pub text: String,
    pub functions: Vec<String>,
    pub rewrites: Vec<&'static str>,
}

pub struct Wanted<'a> {
    pub module: &'a str,
    pub ty: &'a str,
    pub canary: bool,
    pub forced: &'a dyn Fn(&str) -> bool,
}

type R<T> = Result<T, String>;

fn items_of<'a>(f: &'a syn::File, module: &str) -> Option<&'a Vec<syn::Item>> {
    f.items.iter().find_map(|i| match i {
        syn::Item::Mod(m) if m.ident == module => m.content.as_ref().map(|c| &c.1),
        _ => None,
    })
}

fn find_impl<'a>(items: &'a [syn::Item], ty: &str, tr: &str) -> R<&'a syn::ItemImpl> {
    let mut found = vec![];
    for i in items {
        let syn::Item::Const(c) = i else { continue };
        if c.ident != "_" {
            continue;
        }
        let syn::Expr::Block(b) = &*c.expr else { continue };
        for s in &b.block.stmts {
            if let syn::Stmt::Item(syn::Item::Impl(im)) = s {
                let (Some((_, p, _)), syn::Type::Path(t)) = (&im.trait_, &*im.self_ty) else { continue };
                if p.segments.last().unwrap().ident == tr && t.path.segments.last().unwrap().ident == ty {
                    found.push(im);
                }
            }
        }
    }
    match found.len() {
        1 => Ok(found[0]),
        n => Err(format!("{n} derived impls of {tr} for {ty}")),
    }
}

fn fn_of<'a>(im: &'a syn::ItemImpl, name: &str) -> R<&'a syn::ImplItemFn> {
    im.items
        .iter()
        .find_map(|i| match i {
            syn::ImplItem::Fn(f) if f.sig.ident == name => Some(f),
            _ => None,
        })
        .ok_or_else(|| format!("no function {name}"))
}

/// every attribute inside the node
struct Attrs(Vec<Edit>);
impl<'ast> Visit<'ast> for Attrs {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = range(a.span());
        self.0.push(Edit { start: s, end: e, text: String::new() });
    }
}

struct Src<'a>(&'a str);
impl Src<'_> {
    fn of(&self, t: &impl Spanned) -> &str {
        let (s, e) = range(t.span());
        &self.0[s..e]
    }
    /// the text of a span with edits
    fn edited(&self, s: usize, e: usize, mut edits: Vec<Edit>) -> String {
        edits.retain(|x| x.start >= s && x.end <= e);
        for x in edits.iter_mut() {
            x.start -= s;
            x.end -= s;
        }
        apply(&self.0[s..e], &mut edits).unwrap()
    }
}

fn str_lit(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
        _ => None,
    }
}

fn call<'a>(e: &'a syn::Expr, last: &str) -> Option<&'a syn::ExprCall> {
    match e {
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) if p.path.segments.last().unwrap().ident == last => Some(c),
            _ => None,
        },
        _ => None,
    }
}

fn turbofish(e: &syn::Expr) -> Option<&syn::Type> {
    if let syn::Expr::Path(p) = e {
        if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                return Some(t);
            }
        }
    }
    None
}

/// entries: (key, field) of a struct, or (name, variant) of an enum
enum Shape {
    Struct(Vec<(String, String)>),
    Enum(Vec<(String, String)>),
}

/// what the `Serialize` impl writes, read off its plain statements
fn written(f: &syn::ImplItemFn) -> R<Shape> {
    let stmts = &f.block.stmts;
    if let [syn::Stmt::Expr(syn::Expr::Match(m), None)] = &stmts[..] {
        let mut v = vec![];
        for a in &m.arms {
            let c = call(&a.body, "serialize_newtype_variant").ok_or("a variant is not written as a newtype variant")?;
            let name = c.args.get(3).and_then(str_lit).ok_or("no variant name")?;
            let syn::Pat::TupleStruct(p) = &a.pat else { return Err("unexpected pattern".into()) };
            v.push((name, p.path.segments.last().unwrap().ident.to_string()));
        }
        return Ok(Shape::Enum(v));
    }
    let mut v = vec![];
    for s in stmts.iter().skip(1).take(stmts.len().saturating_sub(2)) {
        let syn::Stmt::Expr(syn::Expr::Try(t), Some(_)) = s else { return Err("a field is not written plainly".into()) };
        let c = call(&t.expr, "serialize_field").ok_or("a field is not written plainly")?;
        let key = c.args.get(1).and_then(str_lit).ok_or("no key")?;
        let Some(syn::Expr::Reference(r)) = c.args.get(2) else { return Err("a field is not written as it is".into()) };
        let syn::Expr::Field(x) = &*r.expr else { return Err("a field is not written as it is".into()) };
        if norm(&x.base) != "self" {
            return Err("a field is not written as it is".into());
        }
        v.push((key, norm(&x.member)));
    }
    Ok(Shape::Struct(v))
}

const E0: &str = "Entries::empty()";

fn lit(s: &str) -> String {
    format!("{s:?}@")
}

/// the generated module of one type
pub fn derive(exp: &syn::File, text: &str, w: &Wanted) -> R<Derived> {
    let src = Src(text);
    let items = items_of(exp, w.module).ok_or("the module is gone from the expansion")?;
    let ser = find_impl(items, w.ty, "Serialize")?;
    let de = find_impl(items, w.ty, "Deserialize")?;
    let shape = written(fn_of(ser, "serialize")?)?;
    let ty = w.ty;
    let m = w.module;
    let self_ty = src.of(&*ser.self_ty).to_string();
    let params: Vec<String> = ser.generics.type_params().map(|p| p.ident.to_string()).collect();
    let gen = if params.is_empty() { String::new() } else { format!("<{}>", params.iter().map(|p| format!("{p}: Valued")).collect::<Vec<_>>().join(", ")) };

    let mut out = String::new();
    let mut functions = vec![];
    let mut names: Vec<String> = vec![];
    out.push_str(&format!("pub mod json_{ty} {{\nuse super::*;\nuse crate::serde_model::*;\nuse crate::serde_model as _serde;\nuse vstd::prelude::*;\nuse vstd::seq::Seq as VSeq;\n"));

    // ---- the value
    let val = match &shape {
        Shape::Struct(v) => {
            let mut s = format!("Val::Map({E0}");
            for (k, f) in v {
                s.push_str(&format!("\n.push(({}, self.{f}.val()))", lit(k)));
                names.push(k.clone());
            }
            s + ")"
        }
        Shape::Enum(v) => {
            let mut s = "match *self {".to_string();
            for (k, f) in v {
                s.push_str(&format!("\n{ty}::{f}(x) => Val::Tagged({}, Box::new(x.val())),", lit(k)));
                names.push(k.clone());
            }
            s + "\n}"
        }
    };
    out.push_str(&format!("impl{gen} Valued for {self_ty} {{\nopen spec fn val(&self) -> Val {{\n{val}\n}}\n}}\n"));

    if let Shape::Struct(v) = &shape {
        let mut ens = String::new();
        let (mut xs, mut ys) = (E0.to_string(), E0.to_string());
        let mut prf = String::new();
        for (i, (k, f)) in v.iter().enumerate() {
            ens.push_str(&format!("x.{f}.val() == y.{f}.val(),\n"));
            xs.push_str(&format!(".push(({}, x.{f}.val()))", lit(k)));
            ys.push_str(&format!(".push(({}, y.{f}.val()))", lit(k)));
            prf.push_str(&format!("assert(a[{i}].1 == x.{f}.val() && b[{i}].1 == y.{f}.val());\n"));
        }
        out.push_str(&format!("pub proof fn lemma_fields{gen}(x: {self_ty}, y: {self_ty})\nrequires\nx.val() == y.val(),\nensures\ntrue,\n{ens}{{\nlet a = {xs};\nlet b = {ys};\nassert(a == b);\n{prf}}}\n"));
    }

    let emit_fn = |key: &str, head: &str, body: String, functions: &mut Vec<String>| -> String {
        let full = format!("{m}::derive {ty}::{key}");
        functions.push(full.clone());
        let (attr, body) = if (w.forced)(&full) {
            ("#[verifier::external_body]\n", "{ unimplemented!() }".to_string())
        } else if w.canary {
            let at = body.find('{').unwrap() + 1;
            ("", format!("{}\nproof {{ assert(false); }} //@CANARY\n{}", &body[..at], &body[at..]))
        } else {
            ("", body)
        };
        format!("\n//@@FN {full}\n{attr}{head} {body}\n//@@END\n")
    };
    let attrs = |n: &dyn Fn(&mut Attrs)| {
        let mut a = Attrs(vec![]);
        n(&mut a);
        a.0
    };
    // signature text up to the body
    let head = |f: &syn::ImplItemFn, strip_mut: bool| -> String {
        let (s, e) = (range(f.sig.span()).0, range(f.sig.span()).1);
        let mut ed = vec![];
        if strip_mut {
            for a in &f.sig.inputs {
                if let syn::FnArg::Typed(t) = a {
                    if let syn::Pat::Ident(i) = &*t.pat {
                        if let Some(mt) = &i.mutability {
                            let (a, b) = range(mt.span());
                            ed.push(Edit { start: a, end: b, text: String::new() });
                        }
                    }
                }
            }
        }
        src.edited(s, e, ed)
    };
    let impl_head = |im: &syn::ItemImpl, tr: Option<&str>| -> String {
        let (s, _) = range(im.impl_token.span());
        let (e, _) = range(im.brace_token.span.open());
        let mut ed = vec![];
        if let (Some(t), Some((_, p, _))) = (tr, &im.trait_) {
            let (a, b) = range(p.segments.last().unwrap().ident.span());
            ed.push(Edit { start: a, end: b, text: t.to_string() });
        }
        src.edited(s, e, ed)
    };
    let block = |b: &syn::Block, mut ed: Vec<Edit>| -> String {
        ed.extend(attrs(&|a| a.visit_block(b)));
        let (s, e) = range(b.span());
        src.edited(s, e, ed)
    };

    // ---- serialize
    let f = fn_of(ser, "serialize")?;
    out.push_str(&format!("{} {{{}}}\n", impl_head(ser, None), emit_fn("serialize", &head(f, false), serialize_body(&src, f, &shape, &block)?, &mut functions)));

    // ---- deserialize: its nested items
    let f = fn_of(de, "deserialize")?;
    let mut field_visitor = None;
    let mut visitor = None;
    let mut field_de = None;
    let mut tail = None;
    for s in &f.block.stmts {
        match s {
            syn::Stmt::Item(syn::Item::Enum(e)) => {
                out.push_str(&format!("pub {}\n", src.edited(range(e.enum_token.span()).0, range(e.span()).1, attrs(&|a| a.visit_item_enum(e)))));
            }
            syn::Stmt::Item(syn::Item::Struct(e)) => {
                out.push_str(&format!("pub {}\n", src.edited(range(e.struct_token.span()).0, range(e.span()).1, attrs(&|a| a.visit_item_struct(e)))));
            }
            syn::Stmt::Item(syn::Item::Const(c)) => {
                out.push_str(&format!("#[verifier::external_body]\npub exec {}\n", src.edited(range(c.const_token.span()).0, range(c.span()).1, vec![])));
            }
            syn::Stmt::Item(syn::Item::Impl(im)) => {
                let t = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                let who = norm(&im.self_ty);
                match (t.as_str(), who.starts_with("__FieldVisitor"), who.starts_with("__Visitor")) {
                    ("Visitor", true, _) => field_visitor = Some(im),
                    ("Visitor", _, true) => visitor = Some(im),
                    ("Deserialize", ..) => field_de = Some(im),
                    _ => return Err(format!("unexpected impl of {t} for {who}")),
                }
            }
            syn::Stmt::Expr(e, None) => tail = Some(e),
            _ => return Err("unexpected statement in deserialize".into()),
        }
    }
    let (Some(fv), Some(vi), Some(fd), Some(tail)) = (field_visitor, visitor, field_de, tail) else {
        return Err("unexpected shape of deserialize".into());
    };

    // keys: the literals and what they stand for
    let vs = fn_of(fv, "visit_str")?;
    let [syn::Stmt::Expr(syn::Expr::Match(km), None)] = &vs.block.stmts[..] else {
        return Err("unexpected shape of visit_str".into());
    };
    let mut keys: Vec<(String, String)> = vec![]; // literal, __fieldK
    let mut chain = String::new();
    for a in &km.arms {
        let res = src.of(&*a.body);
        match &a.pat {
            syn::Pat::Lit(l) => {
                let syn::Lit::Str(s) = &l.lit else { return Err("a key is not a string".into()) };
                let k = call(&a.body, "Ok").and_then(|c| c.args.first()).map(|e| norm(e)).unwrap_or_default();
                keys.push((s.value(), k.rsplit("::").next().unwrap().to_string()));
                chain.push_str(&format!("if {} == {:?} {{ {res} }} else ", src.of(&*km.expr), s.value()));
            }
            syn::Pat::Wild(_) => chain.push_str(&format!("{{ {res} }}\n")),
            _ => return Err("unexpected key pattern".into()),
        }
    }
    // of several names for a field (`alias`) the one that is written counts: the others are
    // understood too, which is nothing the round trip needs
    let all = keys.clone();
    keys.retain(|(l, k)| names.contains(l) || !all.iter().any(|(m, j)| j == k && (names.contains(m) || (m != l && m < l))));
    let mut used = std::collections::BTreeSet::new();
    for (l, k) in &all {
        if keys.contains(&(l.clone(), k.clone())) && !used.insert(k.clone()) {
            return Err(format!("two keys for {k}"));
        }
        if !names.contains(l) {
            names.push(l.clone());
        }
    }
    let ignore = matches!(shape, Shape::Struct(_));
    out.push_str("impl Valued for __Field {\nopen spec fn val(&self) -> Val {\nmatch *self {\n");
    for (l, k) in &keys {
        out.push_str(&format!("__Field::{k} => Val::Text({}),\n", lit(l)));
    }
    if ignore {
        out.push_str("__Field::__ignore => Val::Bool(false),\n");
    }
    out.push_str("}\n}\n}\n");

    // distinct names
    let mut ens = String::new();
    let mut prf = String::new();
    for n in &names {
        prf.push_str(&format!("reveal_strlit({n:?});\n"));
    }
    for i in 0..names.len() {
        for j in i + 1..names.len() {
            let (a, b) = (&names[i], &names[j]);
            ens.push_str(&format!("{} != {},\n", lit(a), lit(b)));
            let (ca, cb): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
            if ca.len() != cb.len() {
                prf.push_str(&format!("assert({}.len() != {}.len());\n", lit(a), lit(b)));
            } else {
                let p = (0..ca.len()).find(|p| ca[*p] != cb[*p]).unwrap_or(0);
                prf.push_str(&format!("assert({}[{p}] != {}[{p}]);\n", lit(a), lit(b)));
            }
        }
    }
    if ens.is_empty() {
        ens = "true,\n".into();
    }
    out.push_str(&format!("pub proof fn lemma_names()\nensures\n{ens}{{\n{prf}}}\n"));

    // ---- visitors of keys
    let ty_item = |im: &syn::ItemImpl| -> R<String> {
        im.items
            .iter()
            .find_map(|i| match i {
                syn::ImplItem::Type(t) => Some(src.of(t).to_string()),
                _ => None,
            })
            .ok_or_else(|| "a visitor without a value".to_string())
    };
    out.push_str(&format!("{} {{ {} }}\n", impl_head(fv, None), ty_item(fv)?));
    let ig = if ignore { format!("assert forall|w: __Field| #[trigger] w.val() == Val::Text({}@) implies !(w is __ignore) by {{}}", src.of(&*km.expr)) } else { String::new() };
    out.push_str(&format!(
        "{} {{{}}}\n",
        impl_head(fv, Some("VisitStr")),
        emit_fn("visit_str", &head(vs, false), format!("{{\nproof {{ lemma_names(); {ig} }}\n{chain}}}"), &mut functions)
    ));
    let fdf = fn_of(fd, "deserialize")?;
    out.push_str(&format!("{} {{{}}}\n", impl_head(fd, None), emit_fn("key", &head(fdf, false), block(&fdf.block, vec![]), &mut functions)));

    // ---- the visitor of the value
    out.push_str(&format!("{} {{ {} }}\n", impl_head(vi, None), ty_item(vi)?));
    match &shape {
        Shape::Struct(v) => {
            let f = fn_of(vi, "visit_map")?;
            let body = map_body(&src, f, v, &keys, &self_ty, &block)?;
            out.push_str(&format!("{} {{{}}}\n", impl_head(vi, Some("VisitMap")), emit_fn("visit_map", &head(f, true), body, &mut functions)));
        }
        Shape::Enum(v) => {
            let f = fn_of(vi, "visit_enum")?;
            let body = enum_body(f, v, &keys, ty, &block)?;
            out.push_str(&format!("{} {{{}}}\n", impl_head(vi, Some("VisitEnum")), emit_fn("visit_enum", &head(f, false), body, &mut functions)));
        }
    }
    let tail = format!("{{\n{}\n}}", src.edited(range(tail.span()).0, range(tail.span()).1, attrs(&|a| a.visit_expr(tail))));
    out.push_str(&format!("{} {{{}}}\n}}\n", impl_head(de, None), emit_fn("deserialize", &head(f, false), tail, &mut functions)));
    Ok(Derived {
        text: out,
        functions,
        rewrites: vec!["derived impl taken from the compiler's expansion", "`while let` of derived code turned into `loop`/`match`", "match on string literals turned into comparisons"],
    })
}

type Block<'a> = dyn Fn(&syn::Block, Vec<Edit>) -> String + 'a;

fn serialize_body(src: &Src, f: &syn::ImplItemFn, shape: &Shape, block: &Block) -> R<String> {
    let mut ed = vec![];
    if let Shape::Struct(v) = shape {
        // a value that is not plain is not plain in a field
        let at = range(f.block.brace_token.span.open()).1;
        let mut t = String::from("\nproof {\n");
        let mut seq = E0.to_string();
        for (i, (k, x)) in v.iter().enumerate() {
            seq.push_str(&format!(".push(({}, self.{x}.val()))", lit(k)));
            let _ = i;
        }
        t.push_str(&format!("let vx_e = {seq};\n"));
        for (i, (_, x)) in v.iter().enumerate() {
            t.push_str(&format!("assert(vx_e[{i}].1 == self.{x}.val());\nif !plain(vx_e[{i}].1) {{ lemma_plain(vx_e, {i}); }}\n"));
        }
        t.push_str("}\n");
        ed.push(Edit { start: at, end: at, text: t });
    }
    let _ = src;
    Ok(block(&f.block, ed))
}

struct MapUses<'a> {
    name: &'a str,
    edits: Vec<Edit>,
    whiles: Vec<(usize, usize)>,
}
impl<'ast> Visit<'ast> for MapUses<'_> {
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        if i == self.name {
            let (s, e) = range(i.span());
            self.edits.push(Edit { start: s, end: e, text: "vx_map".into() });
        }
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        self.whiles.push(range(w.span()));
        syn::visit::visit_expr_while(self, w);
    }
}

fn map_body(src: &Src, f: &syn::ImplItemFn, entries: &[(String, String)], keys: &[(String, String)], self_ty: &str, block: &Block) -> R<String> {
    // the parameter
    let param = f
        .sig
        .inputs
        .iter()
        .find_map(|a| match a {
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .ok_or("visit_map without a parameter")?;
    let mut uses = MapUses { name: &param, edits: vec![], whiles: vec![] };
    uses.visit_block(&f.block);
    if uses.whiles.len() != 1 {
        return Err("visit_map without its one loop".into());
    }
    // the types of the fields, the loop, the result
    let mut types: Vec<(String, String)> = vec![];
    let mut lp = None;
    let mut result = None;
    for s in &f.block.stmts {
        match s {
            syn::Stmt::Local(l) => {
                if let syn::Pat::Type(t) = &l.pat {
                    let syn::Type::Path(p) = &*t.ty else { continue };
                    let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments else { continue };
                    let Some(syn::GenericArgument::Type(x)) = a.args.first() else { continue };
                    types.push((norm(&t.pat).replace("mut", ""), src.of(x).to_string()));
                }
            }
            syn::Stmt::Expr(syn::Expr::While(w), _) => lp = Some(w),
            syn::Stmt::Expr(e, None) => result = call(e, "Ok").and_then(|c| c.args.first()),
            _ => {}
        }
    }
    let (Some(lp), Some(result)) = (lp, result) else { return Err("unexpected shape of visit_map".into()) };
    let syn::Expr::Let(l) = &*lp.cond else { return Err("unexpected loop in visit_map".into()) };
    let n = entries.len();
    let mut facts: Vec<String> = vec![]; // of the entries, when the value is one of the type's
    let mut invs: Vec<String> = vec![];
    let mut pre = String::new();
    facts.push(format!("vx_e.len() == {n}"));
    for (i, (k, fld)) in entries.iter().enumerate() {
        facts.push(format!("vx_e[{i}].0 == {}", lit(k)));
        pre.push_str(&format!("assert(vx_e[{i}] == ({}, w.{fld}.val()));\n", lit(k)));
        let var = keys.iter().find(|(l, _)| l == k).map(|x| x.1.clone());
        if let Some(var) = var {
            let t = types.iter().find(|x| x.0 == var).map(|x| x.1.clone()).ok_or("a field without a variable")?;
            facts.push(format!("is_one::<{t}>(vx_e[{i}].1)"));
            pre.push_str(&format!("assert(is_one::<{t}>(vx_e[{i}].1));\nassert(__Field::{var}.val() == Val::Text(vx_e[{i}].0));\n"));
            invs.push(format!("vx_ok ==> match {var} {{ Some(x) => vx_e.len() - vx_map.left().len() > {i} && x.val() == vx_e[{i}].1, None => vx_e.len() - vx_map.left().len() <= {i} }},\n"));
        }
    }
    facts.push(format!("(forall|i: int| 0 <= i < {n} ==> is_one::<__Field>(Val::Text((#[trigger] vx_e[i]).0)))"));
    let mut names: Vec<&String> = entries.iter().map(|e| &e.0).collect();
    for (k, _) in keys {
        if !names.contains(&k) {
            names.push(k);
        }
    }
    let mut distinct = String::new();
    for i in 0..names.len() {
        for j in i + 1..names.len() {
            distinct.push_str(&format!("{} != {},\n", lit(names[i]), lit(names[j])));
        }
    }
    let start = format!(
        "\nlet mut vx_map = {param};\nlet ghost vx_e = {param}.left();\nlet ghost vx_f = {param}.faulty();\nlet ghost vx_ok = is_one::<{self_ty}>(Val::Map(vx_e));\nproof {{\nlemma_names();\nif vx_ok {{\nlet w = choose|w: {self_ty}| w.val() == Val::Map(vx_e);\nassert(w.val() == Val::Map(vx_e));\nassert(vx_e.len() == {n});\n{pre}}}\n}}\n"
    );
    let inv = format!(
        "\ninvariant\nvx_map.pending() is None,\nvx_map.faulty() == vx_f,\nvx_ok ==> {},\n{distinct}vx_map.left().len() <= vx_e.len(),\nvx_map.left() == vx_e.skip(vx_e.len() - vx_map.left().len()),\n{}vx_ok == is_one::<{self_ty}>(Val::Map(vx_e)),\nvx_e == {param}.left(),\nvx_f == {param}.faulty(),\nensures\nvx_map.left().len() == 0,\ndecreases vx_map.left().len(),\n",
        facts.join(" && "),
        invs.concat()
    );
    let at_loop = "\nproof { if vx_map.left().len() > 0 { assert(vx_map.left()[0] == vx_e[vx_e.len() - vx_map.left().len()]); } }\n";
    let mut end = String::from("proof { if vx_ok { assert(vx_e =~= Entries::empty()");
    for (k, fld) in entries {
        end.push_str(&format!(".push(({}, vx_v.{fld}.val()))", lit(k)));
    }
    end.push_str("); } }\n");

    let mut ed = uses.edits;
    let open = range(f.block.brace_token.span.open()).1;
    ed.push(Edit { start: open, end: open, text: start });
    // while let P = E { B }  =>  loop INV { match E { P => { B } _ => break } }
    let (ws, _) = range(lp.span());
    let (bs, be) = range(lp.body.brace_token.span.open());
    let (cs, ce) = range(lp.body.brace_token.span.close());
    // E keeps its edits: cut around it
    let (es, ee) = range(l.expr.span());
    ed.push(Edit { start: ws, end: es, text: format!("loop{inv}{{{at_loop}match ") });
    ed.push(Edit { start: ee, end: bs, text: " ".into() });
    ed.push(Edit { start: bs, end: be, text: format!("{{ {} => {{", src.of(&*l.pat)) });
    ed.push(Edit { start: cs, end: ce, text: "} _ => { break; } } }".into() });
    // Ok(S { .. })  =>  let vx_v = S { .. }; Ok(vx_v)
    let Some(syn::Stmt::Expr(tail, None)) = f.block.stmts.last() else { return Err("no result".into()) };
    let (ts, te) = range(tail.span());
    let (rs, re) = range(result.span());
    let okp = src.0[ts..rs].to_string();
    ed.push(Edit { start: ts, end: rs, text: "let vx_v = ".into() });
    ed.push(Edit { start: re, end: te, text: format!(";\n{end}{okp}vx_v)") });
    Ok(block(&f.block, ed))
}

struct Maps {
    edits: Vec<Edit>,
    types: Vec<(String, String, String)>, // __fieldK, type, constructor
}

fn enum_body(f: &syn::ImplItemFn, entries: &[(String, String)], keys: &[(String, String)], ty: &str, block: &Block) -> R<String> {
    let [syn::Stmt::Expr(syn::Expr::Match(m), None)] = &f.block.stmts[..] else {
        return Err("unexpected shape of visit_enum".into());
    };
    let c = call(&m.expr, "variant").and_then(|c| c.args.first()).map(|e| norm(e)).ok_or("no variant read")?;
    let mut maps = Maps { edits: vec![], types: vec![] };
    for a in &m.arms {
        let Some(mc) = call(&a.body, "map") else { continue };
        let (Some(inner), Some(cons)) = (mc.args.get(0), mc.args.get(1)) else { return Err("unexpected map".into()) };
        let ic = call(inner, "newtype_variant").ok_or("a variant is not read as a newtype variant")?;
        let t = turbofish(&ic.func).ok_or("no type of a variant")?.to_token_stream().to_string();
        let syn::Expr::Path(_) = cons else { return Err("a variant is not made by its constructor".into()) };
        let cn = norm(cons);
        let (s, e) = range(cons.span());
        maps.edits.push(Edit { start: s, end: e, text: format!("|vx_x: {t}| -> (vx_q: {ty}) ensures vx_q == {cn}(vx_x) {{ {cn}(vx_x) }}") });
        // Ok((__Field::__fieldK, __variant))
        let p = norm(&a.pat);
        let k = p.split("__Field::").nth(1).and_then(|s| s.split(',').next()).unwrap_or("").to_string();
        maps.types.push((k, t, cn.rsplit("::").next().unwrap().to_string()));
    }
    let mut t = format!(
        "\nproof {{\nlemma_names();\nif is_one::<{ty}>(Val::Tagged({c}.tag(), Box::new({c}.held()))) {{\nlet w = choose|w: {ty}| w.val() == Val::Tagged({c}.tag(), Box::new({c}.held()));\nassert(w.val() == Val::Tagged({c}.tag(), Box::new({c}.held())));\nmatch w {{\n"
    );
    for (k, variant) in entries {
        let mut b = String::new();
        if let Some((_, var)) = keys.iter().find(|(l, _)| l == k) {
            b.push_str(&format!("assert(__Field::{var}.val() == Val::Text({c}.tag()));"));
            if let Some((_, t, _)) = maps.types.iter().find(|x| &x.0 == var) {
                b.push_str(&format!("assert(is_one::<{t}>({c}.held()));"));
            }
        }
        t.push_str(&format!("{ty}::{variant}(x) => {{ {b} }},\n"));
    }
    t.push_str("}\n}\n}\n");
    let open = range(f.block.brace_token.span.open()).1;
    maps.edits.push(Edit { start: open, end: open, text: t });
    Ok(block(&f.block, maps.edits))
}
