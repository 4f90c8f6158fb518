//! Reads the contract overlays (/verif/contracts/*.vc).

use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct FnOverlay {
    pub ret: Option<String>,
    pub spec: String,
    /// ordinal (1-based, pre-order) -> (iterator label, invariant text)
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    /// anchor -> text, in file order
    pub ghost: Vec<(String, String)>,
    /// ordinal (1-based) -> (parameter list, return, ensures)
    pub closures: BTreeMap<usize, (String, String)>,
    /// `X.map(F).collect()` lowered to a loop: ordinal -> (finisher, invariant)
    pub collects: BTreeMap<usize, (String, String)>,
    pub attrs: String,
    pub external: Option<String>,
    pub skip: Option<String>,
    pub params: Option<String>,
    /// skipped when the derived impls are not part of the run
    pub needs_derived: bool,
    pub used: bool,
    pub line: usize,
}

#[derive(Debug, Clone, Default)]
pub struct Module {
    pub name: String,
    pub source: Option<String>,
    pub uses: String,
    pub top: String,
    pub bottom: String,
    /// item key -> ghost items put at the start of its body
    pub items: BTreeMap<String, String>,
    /// item key -> attributes put before it
    pub item_attrs: BTreeMap<String, String>,
    pub skip_items: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnOverlay>,
    /// trait impls turned into inherent impls, so that their functions can have preconditions
    pub inherent: Vec<String>,
    /// item key -> text its normalised tokens must equal (lost anchor otherwise)
    pub pins: BTreeMap<String, String>,
    /// calls (last two path segments) that act on the ghost world -> contracted wrapper
    pub world: BTreeMap<String, String>,
    /// roots of expression statements that are dropped
    pub drop_roots: Vec<String>,
    /// types whose derived (de)serialisation is put under contract (with --expanded)
    pub derives: Vec<String>,
    /// text of the module that is only there with --expanded
    pub json: String,
    pub derived_only: bool,
}

enum Sink {
    None,
    Uses,
    Top,
    Bottom,
    Json,
    Item(String),
    ItemAttr(String),
    Pin(String),
    Spec,
    Loop(usize),
    Ghost(usize),
    Closure(usize),
    Attr,
    Collect(usize),
}

pub fn parse(text: &str, file: &str) -> Result<Module, String> {
    let mut m = Module::default();
    let mut sink = Sink::None;
    let mut cur: Option<String> = None;
    for (n, line) in text.lines().enumerate() {
        let err = |s: &str| format!("{file}:{}: {s}", n + 1);
        if let Some(d) = line.strip_prefix('@') {
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim().to_string();
            match word {
                "module" => {
                    let (a, b) = rest.split_once(' ').unwrap_or((&rest, ""));
                    m.name = a.to_string();
                    m.source = if b.trim().is_empty() { None } else { Some(b.trim().to_string()) };
                    sink = Sink::None;
                }
                "uses" => sink = Sink::Uses,
                "top" => sink = Sink::Top,
                "bottom" => sink = Sink::Bottom,
                "json" => sink = Sink::Json,
                "derive" => {
                    m.derives.push(rest);
                    sink = Sink::None;
                }
                "when" => {
                    m.derived_only = true;
                    sink = Sink::None;
                }
                "item" => sink = Sink::Item(rest),
                "itemattr" => sink = Sink::ItemAttr(rest),
                "pin" => sink = Sink::Pin(rest),
                "world" => {
                    let (a, b) = rest.split_once(" -> ").ok_or_else(|| err("@world CALL -> WRAPPER"))?;
                    m.world.insert(a.trim().to_string(), b.trim().to_string());
                    sink = Sink::None;
                }
                "dropstmt" => {
                    m.drop_roots.push(rest);
                    sink = Sink::None;
                }
                "inherent" => {
                    m.inherent.push(rest);
                    sink = Sink::None;
                }
                "skipitem" => {
                    let (a, b) = rest.split_once(" -- ").unwrap_or((&rest, ""));
                    m.skip_items.insert(a.to_string(), b.to_string());
                    sink = Sink::None;
                }
                "end" => sink = Sink::None,
                "fn" => {
                    if m.fns.contains_key(&rest) {
                        return Err(err("duplicate @fn"));
                    }
                    m.fns.insert(rest.clone(), FnOverlay { line: n + 1, ..Default::default() });
                    cur = Some(rest);
                    sink = Sink::Spec;
                }
                _ => {
                    let key = cur.clone().ok_or_else(|| err("directive outside @fn"))?;
                    let f = m.fns.get_mut(&key).unwrap();
                    match word {
                        "ret" => {
                            f.ret = Some(rest);
                            sink = Sink::Spec;
                        }
                        "spec" => sink = Sink::Spec,
                        "needs" => {
                            f.needs_derived = true;
                            sink = Sink::Spec;
                        }
                        "params" => {
                            f.params = Some(rest);
                            sink = Sink::Spec;
                        }
                        "external" => {
                            f.external = Some(rest);
                            sink = Sink::Spec;
                        }
                        "skip" => {
                            f.skip = Some(rest);
                            sink = Sink::Spec;
                        }
                        "attr" => sink = Sink::Attr,
                        "loop" => {
                            let mut it = rest.split_whitespace();
                            let k: usize = it.next().and_then(|s| s.parse().ok()).ok_or_else(|| err("@loop N [label]"))?;
                            f.loops.insert(k, (it.next().map(|s| s.to_string()), String::new()));
                            sink = Sink::Loop(k);
                        }
                        "collect" => {
                            let mut it = rest.split_whitespace();
                            let k: usize = it.next().and_then(|s| s.parse().ok()).ok_or_else(|| err("@collect N [boxed]"))?;
                            let fin = if it.next() == Some("boxed") { ".into_boxed_slice()" } else { "" };
                            f.collects.insert(k, (fin.to_string(), String::new()));
                            sink = Sink::Collect(k);
                        }
                        "closure" => {
                            let (k, sig) = rest.split_once(' ').ok_or_else(|| err("@closure N sig"))?;
                            let k: usize = k.parse().map_err(|_| err("@closure N sig"))?;
                            f.closures.insert(k, (sig.to_string(), String::new()));
                            sink = Sink::Closure(k);
                        }
                        "ghost" => {
                            f.ghost.push((rest, String::new()));
                            sink = Sink::Ghost(f.ghost.len() - 1);
                        }
                        _ => return Err(err("unknown directive")),
                    }
                }
            }
            continue;
        }
        if line.trim_start().starts_with("///") || line.trim_start().starts_with("//#") {
            continue; // comments of the overlay itself
        }
        let mut add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &sink {
            Sink::None => {
                if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                    return Err(format!("{file}:{}: text outside a section", n + 1));
                }
            }
            Sink::Uses => add(&mut m.uses),
            Sink::Top => add(&mut m.top),
            Sink::Bottom => add(&mut m.bottom),
            Sink::Json => add(&mut m.json),
            Sink::Item(k) => add(m.items.entry(k.clone()).or_default()),
            Sink::ItemAttr(k) => add(m.item_attrs.entry(k.clone()).or_default()),
            Sink::Pin(k) => add(m.pins.entry(k.clone()).or_default()),
            other => {
                let f = m.fns.get_mut(cur.as_ref().unwrap()).unwrap();
                match other {
                    Sink::Spec => add(&mut f.spec),
                    Sink::Loop(k) => add(&mut f.loops.get_mut(k).unwrap().1),
                    Sink::Ghost(k) => add(&mut f.ghost[*k].1),
                    Sink::Closure(k) => add(&mut f.closures.get_mut(k).unwrap().1),
                    Sink::Collect(k) => add(&mut f.collects.get_mut(k).unwrap().1),
                    Sink::Attr => add(&mut f.attrs),
                    _ => unreachable!(),
                }
            }
        }
    }
    if m.name.is_empty() {
        return Err(format!("{file}: no @module"));
    }
    Ok(m)
}
