//! Rewriting of function bodies: loop contracts, ghost anchors and the fixed dialect rules.

use std::collections::BTreeMap;

use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

use crate::overlay::FnOverlay;
use crate::{range, Ctx};

/// std (and rayon) methods reached through wrappers of the same behaviour with an assumed contract
const WRAPPED: [&str; 11] = [
    "get_mut", "enumerate", "peekable", "take_while", "count", "par_sort", "starts_with", "ends_with", "strip_prefix", "strip_suffix",
    "split_inclusive",
];

/// methods through which a handle is written
const THROUGH: [&str; 2] = ["flush", "write_all"];

/// `impl Iterator<Item = &'b X>` -> (lifetime, X)
pub fn iterator_item(it: &syn::TypeImplTrait) -> Option<(Option<String>, String)> {
    for b in &it.bounds {
        if let syn::TypeParamBound::Trait(t) = b {
            let seg = t.path.segments.last()?;
            if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                for a in &ab.args {
                    if let syn::GenericArgument::AssocType(at) = a {
                        if at.ident == "Item" {
                            if let syn::Type::Reference(r) = &at.ty {
                                return Some((
                                    r.lifetime.as_ref().map(|l| l.to_string()),
                                    r.elem.to_token_stream().to_string(),
                                ));
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

struct Names(Vec<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        // upper-case identifiers in patterns are constants or variants
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}

pub fn sig_names(sig: &syn::Signature) -> Vec<String> {
    let mut n = Names(vec![]);
    n.visit_signature(sig);
    n.0
}

pub fn binding_names(sig: &syn::Signature, b: &syn::Block) -> Vec<String> {
    let mut n = Names(vec![]);
    n.visit_signature(sig);
    n.visit_block(b);
    n.0
}

pub fn rename_map(base: Option<&Vec<String>>, now: &[String]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(base) = base {
        if base.len() == now.len() {
            for (a, b) in base.iter().zip(now) {
                if a != b && !now.contains(a) {
                    m.entry(a.clone()).or_insert(b.clone());
                }
            }
        }
    }
    m
}

pub fn apply_rename(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return t.to_string();
    }
    let b: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[s..i].iter().collect();
            let field = s > 0 && b[s - 1] == '.' && !(s > 1 && b[s - 2] == '.');
            match m.get(&w) {
                Some(n) if !field => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

struct Loops(usize);
impl<'ast> Visit<'ast> for Loops {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) {
            self.0 += 1;
        }
        visit::visit_expr(self, e);
    }
}

/// control structure of a body: loops, branches, closures, early exits, and the names it calls
struct Skel {
    text: String,
    calls: Vec<String>,
}
impl<'ast> Visit<'ast> for Skel {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let tag = match e {
            syn::Expr::ForLoop(_) => "F",
            syn::Expr::While(_) => "W",
            syn::Expr::Loop(_) => "L",
            syn::Expr::If(i) => {
                if i.else_branch.is_some() {
                    "Ie"
                } else {
                    "I"
                }
            }
            syn::Expr::Match(m) => {
                self.text.push_str(&format!("M{}", m.arms.len()));
                ""
            }
            syn::Expr::Closure(_) => "C",
            syn::Expr::Break(_) => "b",
            syn::Expr::Continue(_) => "c",
            syn::Expr::Return(_) => "r",
            syn::Expr::Try(_) => "?",
            _ => "",
        };
        self.text.push_str(tag);
        let nested = matches!(
            e,
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Closure(_)
        );
        if nested {
            self.text.push('(');
        }
        match e {
            syn::Expr::MethodCall(m) => self.calls.push(m.method.to_string()),
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    self.calls.push(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
        if nested {
            self.text.push(')');
        }
    }
}

pub fn skeleton(b: &syn::Block) -> (String, Vec<String>) {
    let mut k = Skel { text: String::new(), calls: vec![] };
    k.visit_block(b);
    k.calls.sort();
    k.calls.dedup();
    (k.text, k.calls)
}

pub fn count_loops(b: &syn::Block) -> usize {
    let mut l = Loops(0);
    l.visit_block(b);
    l.0
}

/// Where things are: loops, calls and their statements, closures.
#[derive(Default)]
struct Map {
    /// (statement range, body open brace end, body close brace start, header insertion point)
    loops: Vec<((usize, usize), usize, usize, usize)>,
    /// call name -> enclosing statement ranges
    calls: BTreeMap<String, Vec<(usize, usize)>>,
    /// `if` blocks: (then open end, then close start, else open end, else close start), statement
    ifs: Vec<((usize, usize), Option<(usize, usize)>, (usize, usize))>,
    stmt: Vec<(usize, usize)>,
    arms: Vec<(usize, usize, bool)>,
}

struct Walker<'a, 'b, 'c> {
    cx: &'a mut Ctx<'b>,
    full: String,
    o: &'c FnOverlay,
    tr: &'c dyn Fn(&str) -> String,
    map: Map,
    loop_no: usize,
    closure_no: usize,
    collect_no: usize,
    edit: bool,
}

impl<'ast> Visit<'ast> for Walker<'_, '_, '_> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            self.visit_stmt(s);
        }
    }

    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = range(s.span());
        self.map.stmt.push(r);
        match s {
            syn::Stmt::Macro(m) => {
                let name = path(&m.mac.path);
                if name.starts_with("log::") {
                    check_log(self.cx, &self.full, &m.mac);
                    if m.semi_token.is_some() {
                        self.cx.replace(r.0, r.1, "");
                    } else {
                        self.cx.replace(r.0, r.1, "()");
                    }
                    self.cx.count("log macro dropped");
                } else if name == "debug_assert" {
                    let e = m.mac.tokens.to_string();
                    self.cx.replace(r.0, r.1, format!("{{ let vx_c: bool = {e}; assert(vx_c); }}"));
                    self.cx.count("debug_assert! turned into a proof obligation");
                } else {
                    self.mac(&m.mac, r);
                }
            }
            syn::Stmt::Item(syn::Item::Const(c)) => {
                // the empty-vector constant of an array initialiser
                let e = c.expr.to_token_stream().to_string().replace(' ', "");
                if e == "Vec::<usize>::new()" || e == "Vec::new()" {
                    self.cx.replace(r.0, r.1, "");
                    self.cx.count("array fill with empty vectors");
                }
            }
            syn::Stmt::Expr(e, Some(_)) if self.dropped_root(e) => {
                self.cx.replace(r.0, r.1, "");
                let t = self.cx.src[r.0..r.1].to_string();
                let f = self.full.clone();
                self.cx.out.dropped.push(serde_json::json!({"fn": f, "item": t, "reason": "set-up of a library without effect on the result"}));
            }
            _ => visit::visit_stmt(self, s),
        }
        self.map.stmt.pop();
    }

    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        let name = path(&m.mac.path);
        let r = range(m.span());
        if name.starts_with("log::") {
            check_log(self.cx, &self.full, &m.mac);
            self.cx.replace(r.0, r.1, "()");
            self.cx.count("log macro dropped");
        } else {
            self.mac(&m.mac, r);
        }
    }

    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let at = range(l.body.brace_token.span.open());
        if let syn::Expr::Range(r) = &*l.expr {
            if let (Some(from), None) = (&r.start, &r.end) {
                // `for p in a.. { .. }` is `loop` with a counter
                let (s, e) = range(l.span());
                let f = range(from.span());
                let pat = range(l.pat.span());
                let pat = self.cx.src[pat.0..pat.1].to_string();
                if self.edit {
                    self.cx.replace(s, f.0, "{ let mut vx_next = ");
                    self.cx.replace(f.1, at.0, "; loop ");
                    self.cx.insert(at.1, format!(" let {pat} = vx_next; vx_next = vx_next + 1;"));
                    self.cx.insert(e, " }");
                    self.cx.count("unbounded range loop turned into `loop` with a counter");
                }
                self.enter_loop((s, e), &l.body, None, at.0);
                return;
            }
        }
        self.visit_pat(&l.pat);
        self.visit_expr(&l.expr);
        self.enter_loop(range(l.span()), &l.body, Some(range(l.expr.span())), at.0);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.visit_expr(&l.cond);
        let at = range(l.body.brace_token.span.open());
        self.enter_loop(range(l.span()), &l.body, None, at.0);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let at = range(l.body.brace_token.span.open());
        self.enter_loop(range(l.span()), &l.body, None, at.0);
    }

    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        let stmt = self.map.stmt.last().copied().unwrap_or((0, 0));
        let t = (range(e.then_branch.brace_token.span.open()).1, range(e.then_branch.brace_token.span.close()).0);
        let el = match &e.else_branch {
            Some((_, b)) => match &**b {
                syn::Expr::Block(b) => Some((
                    range(b.block.brace_token.span.open()).1,
                    range(b.block.brace_token.span.close()).0,
                )),
                _ => None,
            },
            None => None,
        };
        self.map.ifs.push((t, el, stmt));
        visit::visit_expr_if(self, e);
    }

    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if let syn::Expr::Block(b) = &*a.body {
            self.map.arms.push((
                range(b.block.brace_token.span.open()).1,
                range(b.block.brace_token.span.close()).0,
                true,
            ));
        } else {
            let r = range(a.body.span());
            self.map.arms.push((r.0, r.1, false));
        }
        visit::visit_arm(self, a);
    }

    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == "collect" && self.collect(m) {
            return;
        }
        let through = THROUGH.contains(&m.method.to_string().as_str());
        let fresh = through && self.fresh_handle(&m.receiver).is_some();
        if !fresh {
            self.visit_expr(&m.receiver);
        }
        let name = m.method.to_string();
        let stmt = self.map.stmt.last().copied().unwrap_or((0, 0));
        self.map.calls.entry(name.clone()).or_default().push(stmt);
        if self.edit && WRAPPED.contains(&name.as_str()) {
            let r = range(m.method.span());
            self.cx.replace(r.0, r.1, format!("vx_{name}"));
            self.cx.count("library method reached through a contracted wrapper");
        }
        for a in &m.args {
            if self.fresh_argument(a).is_none() {
                self.visit_expr(a);
            }
        }
        self.sync(range(m.span()), through.then_some(&*m.receiver), &m.args);
    }

    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let name = p.path.segments.last().unwrap().ident.to_string();
            let stmt = self.map.stmt.last().copied().unwrap_or((0, 0));
            self.map.calls.entry(name).or_default().push(stmt);
            if self.edit && matches!(path(&p.path).as_str(), "io::Error::new" | "std::io::Error::new") {
                let r = range(p.span());
                self.cx.replace(r.0, r.1, "vx_io_error");
                self.cx.count("io::Error::new reached through a contracted wrapper");
            }
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let two = segs[segs.len().saturating_sub(2)..].join("::");
            if let (true, Some(w)) = (self.edit, self.cx.world.get(&two).cloned()) {
                let r = range(p.span());
                self.cx.replace(r.0, r.1, w);
                let at = range(c.paren_token.span.close()).0;
                let comma = if c.args.is_empty() || c.args.trailing_punct() { "" } else { ", " };
                self.cx.insert(at, format!("{comma}Tracked(&mut *vx_w)"));
                self.cx.count("call on files or the process given the ghost world as an argument");
            }
        }
        self.visit_expr(&c.func);
        for a in &c.args {
            if self.fresh_argument(a).is_none() {
                self.visit_expr(a);
            }
        }
        self.sync(range(c.span()), None, &c.args);
    }

    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let r = range(l.span());
            let items: Vec<String> = b.value().iter().map(|x| format!("{x}u8")).collect();
            self.cx.replace(r.0, r.1, format!("&[{}]", items.join(", ")));
            self.cx.count("byte string literal spelled out as an array");
        }
    }

    fn visit_expr_repeat(&mut self, e: &'ast syn::ExprRepeat) {
        if let syn::Expr::Path(_) = &*e.expr {
            let r = range(e.span());
            let n = e.len.to_token_stream().to_string();
            if n == "256" {
                self.cx.replace(r.0, r.1, "vx_empty_vecs()");
                self.cx.count("array fill with empty vectors");
            } else {
                let f = self.full.clone();
                self.cx.lose(&f, "array fill of an unexpected length");
            }
        }
    }

    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closure_no += 1;
        if let Some((sig, ens)) = self.o.closures.get(&self.closure_no) {
            let ens = (self.tr)(ens);
            if c.inputs.len() != 1 {
                let f = self.full.clone();
                self.cx.lose(&f, "closure with an unexpected number of parameters");
                return;
            }
            let pat = self.cx.src[range(c.inputs[0].span()).0..range(c.inputs[0].span()).1].to_string();
            let start = range(c.or1_token.span()).0;
            let end = range(c.or2_token.span()).1;
            let (param, ret) = sig.split_once("->").unwrap_or((sig, ""));
            let b = range(c.body.span());
            self.cx.replace(
                start,
                end,
                format!("|vx_p: {}| -> {}\n{ens}\n{{ let {pat} = vx_p; ", param.trim(), ret.trim()),
            );
            visit::visit_expr(self, &c.body);
            self.cx.insert(b.1, " }");
            self.cx.count("closure given an explicit signature and contract");
        } else {
            visit::visit_expr_closure(self, c);
        }
    }
}

fn path(p: &syn::Path) -> String {
    p.to_token_stream().to_string().replace(' ', "")
}

/// a dropped log macro must not do anything but format
fn check_log(cx: &mut Ctx, full: &str, m: &syn::Macro) {
    let t = m.tokens.to_string();
    let quiet: String = {
        // outside string literals
        let mut s = String::new();
        let mut q = false;
        for c in t.chars() {
            if c == '"' {
                q = !q;
            } else if !q {
                s.push(c);
            }
        }
        s
    };
    if quiet.contains('(') || quiet.contains('=') || quiet.contains('{') || quiet.contains('!') {
        cx.lose(full, format!("log macro with a computed argument: {t}"));
    }
}

impl Walker<'_, '_, '_> {
    fn dropped_root(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::MethodCall(m) => self.dropped_root(&m.receiver),
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => self.cx.drop_roots.iter().any(|r| p.path.segments[0].ident == r),
                _ => false,
            },
            _ => false,
        }
    }

    /// a handle made on the spot by a call of the world without arguments, like `io::stdout()`
    fn fresh_handle(&self, e: &syn::Expr) -> Option<String> {
        let syn::Expr::Call(c) = e else { return None };
        let syn::Expr::Path(p) = &*c.func else { return None };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let two = segs[segs.len().saturating_sub(2)..].join("::");
        if !self.edit || !c.args.is_empty() {
            return None;
        }
        self.cx.world.get(&two).map(|w| format!("{w}(Tracked(&mut *vx_w))"))
    }

    fn fresh_argument(&self, a: &syn::Expr) -> Option<String> {
        match a {
            syn::Expr::Reference(x) if x.mutability.is_some() => self.fresh_handle(&x.expr),
            _ => None,
        }
    }

    /// after a call that takes `&mut x` the ghost world learns what went through the handle x
    fn sync(&mut self, r: (usize, usize), receiver: Option<&syn::Expr>, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) {
        if !self.edit || self.cx.world.is_empty() {
            return;
        }
        let (mut head, mut t) = (String::new(), String::new());
        let mut n = 0;
        let mut hoist = |x: &syn::Expr, call: String, me: &mut Self| {
            n += 1;
            let at = range(x.span());
            head.push_str(&format!("let mut vx_h{n} = {call}; "));
            me.cx.replace(at.0, at.1, format!("vx_h{n}"));
            me.cx.count("call on files or the process given the ghost world as an argument");
            format!(" vx_sync(&mut *vx_w, &vx_h{n});")
        };
        match receiver {
            Some(syn::Expr::Path(p)) => t.push_str(&format!(" vx_sync(&mut *vx_w, &{});", path(&p.path))),
            Some(e) => {
                if let Some(call) = self.fresh_handle(e) {
                    t.push_str(&hoist(e, call, self));
                }
            }
            None => {}
        }
        for a in args {
            if let syn::Expr::Reference(x) = a {
                if let Some(call) = self.fresh_argument(a) {
                    t.push_str(&hoist(&x.expr, call, self));
                } else if let (Some(_), syn::Expr::Path(p)) = (&x.mutability, &*x.expr) {
                    t.push_str(&format!(" vx_sync(&mut *vx_w, &{});", path(&p.path)));
                }
            }
        }
        if !t.is_empty() {
            self.cx.insert(r.0, format!("{{ {head}let vx_y = "));
            self.cx.insert(r.1, format!("; proof {{{t} }} vx_y }}"));
            self.cx.count("ghost world told what was written through a handle");
        }
    }

    /// the text of a `format!`: pieces and arguments, if every argument is shown plainly
    fn pieces(&self, m: &syn::Macro, skip: usize) -> Option<(Option<String>, Vec<(bool, String)>)> {
        let args: syn::punctuated::Punctuated<syn::Expr, syn::Token![,]> =
            m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
        let mut it = args.iter();
        let mut to = None;
        for _ in 0..skip {
            let r = range(it.next()?.span());
            to = Some(self.cx.src[r.0..r.1].to_string());
        }
        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = it.next()? else { return None };
        let rest: Vec<&syn::Expr> = it.collect();
        let (mut out, mut lit, mut used) = (vec![], String::new(), 0);
        let text: Vec<char> = l.value().chars().collect();
        let mut i = 0;
        while i < text.len() {
            match text[i] {
                '{' | '}' if text.get(i + 1) == Some(&text[i]) => {
                    lit.push(text[i]);
                    i += 1;
                }
                '{' => {
                    let j = (i..text.len()).find(|j| text[*j] == '}')?;
                    let name: String = text[i + 1..j].iter().collect();
                    if !name.chars().all(|c| c.is_alphanumeric() || c == '_') || name.chars().next().map_or(false, |c| c.is_numeric()) {
                        return None;
                    }
                    out.push((false, std::mem::take(&mut lit)));
                    if name.is_empty() {
                        let r = range(rest.get(used)?.span());
                        out.push((true, self.cx.src[r.0..r.1].to_string()));
                        used += 1;
                    } else {
                        out.push((true, name));
                    }
                    i = j;
                }
                '}' => return None,
                c => lit.push(c),
            }
            i += 1;
        }
        out.push((false, lit));
        if used != rest.len() {
            return None;
        }
        Some((to, out))
    }

    /// `format!` becomes the concatenation it stands for, `write!` the writing of that text
    fn text_macro(&mut self, m: &syn::Macro, r: (usize, usize), write: bool) -> bool {
        let Some((to, ps)) = self.pieces(m, write as usize) else { return false };
        let mut t = String::from("{ let mut vx_s = String::new();");
        for (arg, p) in ps {
            if arg {
                t.push_str(&format!(" vx_show(&mut vx_s, &({p}));"));
            } else if !p.is_empty() {
                t.push_str(&format!(" vx_lit(&mut vx_s, {p:?});"));
            }
        }
        match to {
            Some(f) => t.push_str(&format!(" {f}.write_str(vx_s.as_str()) }}")),
            None => t.push_str(" vx_s }"),
        }
        self.cx.replace(r.0, r.1, t);
        self.cx.count("format!/write! spelled out as the text it puts together");
        true
    }

    fn mac(&mut self, m: &syn::Macro, r: (usize, usize)) {
        let name = path(&m.path);
        match name.as_str() {
            "format" | "write" if self.edit && self.text_macro(m, r, name == "write") => {}
            "vec" | "assert" | "unreachable" => {}
            _ => {
                let f = self.full.clone();
                self.cx.lose(&f, format!("macro {name}! outside the dialect"));
            }
        }
    }

    /// `X.map(|p| e).collect()` becomes the loop that calls `next` until it gives None and pushes
    /// `e` for each item
    fn collect(&mut self, m: &syn::ExprMethodCall) -> bool {
        let syn::Expr::MethodCall(map) = &*m.receiver else { return false };
        if map.method != "map" || map.args.len() != 1 {
            return false;
        }
        let n = self.collect_no + 1;
        let Some((fin, inv)) = self.o.collects.get(&n) else { return false };
        self.collect_no = n;
        let inv = (self.tr)(inv);
        let ghost = |what: &str| -> String {
            self.o
                .ghost
                .iter()
                .filter(|(a, _)| *a == format!("collect {n} {what}"))
                .map(|(_, t)| format!("\n{}\n", (self.tr)(t)))
                .collect()
        };
        let (before, start, got, item, none, after) = (ghost("before"), ghost("start"), ghost("got"), ghost("item"), ghost("none"), ghost("after"));
        let whole = range(m.span());
        let x = range(map.receiver.span());
        let head = format!("; let mut vx_out = Vec::new();{before}\nloop\n{inv}\n{{ {start} match vx_it.next() {{ Some(");
        let tail = format!("; {item} vx_out.push(vx_item); }} None => {{ {none} break; }} }} }} {after} vx_out{fin} }}");
        let (pat, body);
        match &map.args[0] {
            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                pat = range(c.inputs[0].span());
                body = range(c.body.span());
                self.cx.insert(x.0, "{ let mut vx_it = ");
                self.cx.replace(x.1, pat.0, head);
                self.cx.replace(pat.1, body.0, format!(") => {{ {got} let vx_item = "));
                self.cx.replace(body.1, whole.1, tail);
                visit::visit_expr(self, &map.receiver);
                visit::visit_expr(self, &c.body);
            }
            syn::Expr::Path(p) => {
                let f = range(p.span());
                self.cx.insert(x.0, "{ let mut vx_it = ");
                self.cx.replace(x.1, f.0, format!("{head}c) => {{ {got} let vx_item = "));
                self.cx.replace(f.1, whole.1, format!("(c){tail}"));
                visit::visit_expr(self, &map.receiver);
            }
            _ => return false,
        }
        self.cx.count("map/collect lowered to the loop over next()");
        true
    }

    fn enter_loop(&mut self, span: (usize, usize), body: &syn::Block, expr: Option<(usize, usize)>, at: usize) {
        self.loop_no += 1;
        let n = self.loop_no;
        let open = range(body.brace_token.span.open()).1;
        let close = range(body.brace_token.span.close()).0;
        let stmt = self.map.stmt.last().copied().unwrap_or(span);
        self.map.loops.push((stmt, open, close, at));
        if self.edit {
            match self.o.loops.get(&n) {
                Some((label, inv)) => {
                    if let (Some(l), Some(e)) = (label, expr) {
                        self.cx.insert(e.0, format!("{l}: ("));
                        self.cx.insert(e.1, ")");
                    }
                    let inv = (self.tr)(inv);
                    self.cx.insert(at, format!("\n{inv}\n"));
                }
                None => {
                    let f = self.full.clone();
                    self.cx.lose(&f, format!("loop {n} has no invariant"));
                }
            }
        }
        if expr.is_some() {
            self.early_continues(body, close);
        }
        self.visit_block(body);
    }

    /// `for .. { A; if C { S; continue; } B }` becomes `for .. { A; if C { S; } else { B } }`:
    /// the verifier has no `continue` in `for` loops
    fn early_continues(&mut self, body: &syn::Block, close: usize) {
        let mut found = 0;
        for st in &body.stmts {
            if let syn::Stmt::Expr(syn::Expr::If(i), _) = st {
                if i.else_branch.is_none() {
                    if let Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) = i.then_branch.stmts.last() {
                        if c.label.is_none() {
                            let last = range(i.then_branch.stmts.last().unwrap().span());
                            self.cx.replace(last.0, last.1, "");
                            let e = range(st.span()).1;
                            self.cx.insert(e, " else {");
                            self.cx.insert(close, "}");
                            self.cx.count("`continue` at the end of an if branch turned into an else branch");
                            found += 1;
                        }
                    }
                }
            }
        }
        let mut k = Continues(0);
        for s in &body.stmts {
            k.visit_stmt(s);
        }
        if k.0 != found {
            let f = self.full.clone();
            self.cx.lose(&f, "`continue` in a for loop outside the dialect");
        }
    }
}

/// `continue`s that belong to this loop
struct Continues(usize);
impl<'ast> Visit<'ast> for Continues {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Closure(_) => {}
            syn::Expr::Continue(_) => self.0 += 1,
            _ => visit::visit_expr(self, e),
        }
    }
}

pub fn rewrite(cx: &mut Ctx, full: &str, o: &FnOverlay, b: &syn::Block, tr: &dyn Fn(&str) -> String) {
    let mut w = Walker {
        cx,
        full: full.to_string(),
        o,
        tr,
        map: Map::default(),
        loop_no: 0,
        closure_no: 0,
        collect_no: 0,
        edit: true,
    };
    w.visit_block(b);
    let map = std::mem::take(&mut w.map);
    let (nl, nc, ncol) = (w.loop_no, w.closure_no, w.collect_no);
    if o.collects.len() != ncol {
        cx.lose(full, "map/collect under contract is gone");
    }
    for k in o.loops.keys() {
        if *k > nl {
            cx.lose(full, format!("loop {k} under contract is gone"));
        }
    }
    for k in o.closures.keys() {
        if *k > nc {
            cx.lose(full, format!("closure {k} under contract is gone"));
        }
    }
    let open = range(b.brace_token.span.open()).1;
    let close = range(b.brace_token.span.close()).0;
    if cx.canary {
        // behind the headers (`hide`) and facts the body starts with
        for (_, text) in o.ghost.iter().filter(|(a, _)| a == "start") {
            cx.insert(open, format!("\n{}\n", tr(text)));
        }
        cx.insert(open, "\nproof { assert(false); } //@CANARY\n");
    }
    for (anchor, text) in &o.ghost {
        if cx.canary && anchor == "start" {
            continue;
        }
        if anchor.starts_with("collect ") {
            continue;
        }
        let text = format!("\n{}\n", tr(text));
        let words: Vec<&str> = anchor.split_whitespace().collect();
        let num = |i: usize| words.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(1);
        let at = match words[0] {
            "start" => Some(open),
            "end" => {
                // bind the tail expression, if any
                match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Return(_)) => {
                        let r = range(e.span());
                        cx.insert(r.0, "let vx_r = ");
                        cx.insert(r.1, format!(";{text}vx_r"));
                        None.or(Some(usize::MAX))
                    }
                    _ => Some(close),
                }
            }
            "loop" => map.loops.get(num(1) - 1).map(|l| if words.get(2) == Some(&"end") { l.2 } else { l.1 }),
            "before" | "after" => {
                let st = match words[1] {
                    "loop" => map.loops.get(num(2) - 1).map(|l| l.0),
                    "call" => map.calls.get(words[2]).and_then(|v| v.get(num(3) - 1)).copied(),
                    _ => None,
                };
                st.map(|s| if words[0] == "before" { s.0 } else { s.1 })
            }
            "then" => map.ifs.get(num(1) - 1).map(|i| if words.get(2) == Some(&"end") { i.0 .1 } else { i.0 .0 }),
            "else" => map.ifs.get(num(1) - 1).and_then(|i| i.1).map(|i| if words.get(2) == Some(&"end") { i.1 } else { i.0 }),
            "arm" => map.arms.get(num(1) - 1).and_then(|a| if a.2 { Some(if words.get(2) == Some(&"end") { a.1 } else { a.0 }) } else { None }),
            _ => None,
        };
        match at {
            Some(usize::MAX) => {}
            Some(p) => cx.insert(p, text),
            None => cx.lose(full, format!("anchor `{anchor}` not found")),
        }
    }
}

/// bodies of trusted functions are kept for the reader but not verified; opaque to Verus
pub fn rewrite_external(cx: &mut Ctx, b: &syn::Block) {
    let (s, e) = (range(b.brace_token.span.open()).1, range(b.brace_token.span.close()).0);
    cx.replace(s, e, " unimplemented!() ");
}
