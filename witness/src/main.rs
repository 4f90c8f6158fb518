//! Bounded witness search over the real crates: every case is judged by the same statement the
//! contracts prove. Used (a) to replay / find a concrete failing input when an obligation fails and
//! (b) as the labelled bounded stand-in for what the verifier cannot reach.

mod cmd;
mod diff_cmd;
mod file_line;
mod gen;
mod io_cases;
mod json;
mod oracle;
mod unified;

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use gen::*;
use oracle::*;
use pw_diff_lib::changes::*;
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    TextPair { before: String, after: String, context: u8 },
    BytePair { before: Vec<u8>, after: Vec<u8>, context: u8 },
    TextRange { before: String, after: String, br: (usize, usize), ar: (usize, usize) },
    ByteRange { before: Vec<u8>, after: Vec<u8>, br: (usize, usize), ar: (usize, usize) },
    Fit { clump: Clump<String>, text: Vec<String>, offset: isize, reverse: bool },
    Nearby { clump: Clump<String>, next: Option<Clump<String>>, text: Vec<String>, offset: isize, consumed: usize, reverse: bool },
    ApplyText { clumps: Vec<Clump<String>>, text: Vec<String>, reverse: bool },
    ApplyBytes { clumps: Vec<Clump<u8>>, data: Vec<u8>, reverse: bool },
    Many { clumps: usize, kind: Many, reverse: bool },
    Stream { data: Vec<u8>, chunks: Vec<usize>, error_at: Option<usize> },
    FilePair { before: Vec<u8>, after: Vec<u8>, context: u8 },
    Kind { before: Option<Vec<u8>>, after: Option<Vec<u8>>, context: u8 },
    KindOf { before: String, after: String },
    Content { data: Vec<u8> },
    Cmd(cmd::CmdCase),
    Diff(diff_cmd::DiffCase),
    Parse { lines: Vec<String>, at: usize },
    FileLine { line: String },
    Render { before: String, after: String, context: u8 },
    Json(json::JsonCase),
}

fn lines_of(t: &str) -> Vec<String> {
    t.split_inclusive('\n').map(|s| s.to_string()).collect()
}

fn check(prop: &str, case: &Case) -> R {
    match case {
        Case::TextPair { before, after, context } => {
            let (b, a) = (lines_of(before), lines_of(after));
            let bs = Seq::<String>::from(before.as_str());
            let as_ = Seq::<String>::from(after.as_str());
            match prop {
                "C01" | "C02" => {
                    let g = ChangesGenerator::<String, StringItemIndices>::new(&bs, &as_).generate();
                    if prop == "C01" {
                        script(&b, &a, &g)?;
                        script(&b, &a, &Changes::<String>::new(bs, as_).changes)
                    } else {
                        alternation(&b, &a, &g)?;
                        if equal_pairs(&b, &a) > 30_000_000 {
                            return Ok(true);
                        }
                        let gen = ChangesGenerator::<String, StringItemIndices>::new(&bs, &as_);
                        lcs(&b, &a, (0, b.len()), (0, a.len()),
                            gen.longest_common_subsequence(Range(0, b.len()), Range(0, a.len())))
                    }
                }
                "C03" => {
                    let mut probes = b.clone();
                    probes.extend(a.iter().cloned());
                    if probes.len() > 300 {
                        probes.sort();
                        probes.dedup();
                    }
                    if probes.len() > 2500 {
                        probes = probes.into_iter().enumerate().filter(|(i, _)| i % 331 == 0).map(|(_, p)| p).collect();
                    }
                    probes.push("unlikely".into());
                    if b.len() < 100 {
                        // items that are not whole lines
                        let bare = |l: &[String]| -> Vec<String> { l.iter().map(|l| l.trim_end_matches('\n').to_string()).collect() };
                        let items: Vec<String> = [bare(&b), bare(&a), b.clone()].concat();
                        let mut wanted = [probes.clone(), bare(&probes)].concat();
                        wanted.sort();
                        wanted.dedup();
                        index::<String, StringItemIndices>(&Seq(items.into_boxed_slice()), &wanted)?;
                    }
                    index::<String, StringItemIndices>(&bs, &probes)
                }
                "C04" | "C05" | "C22" => {
                    let ch = Changes::<String>::new(bs, as_);
                    let cl: Vec<Vec<Change>> = ch.change_clumps(*context).map(|c| c.changes.clone()).collect();
                    match prop {
                        "C04" => clumps(&b, &a, &ch.changes, &cl, *context),
                        "C22" => extents(&b, &a, &ch.changes, &cl),
                        _ => {
                            let recs = text_clumps(before, after, *context);
                            if recs.len() != cl.len() {
                                return Err("not one record per clump".into());
                            }
                            for (c, t) in cl.iter().zip(&recs) {
                                record(&b, &a, c, (t.start.0, &t.before, t.start.1, &t.after, t.ctx))?;
                            }
                            Ok(!cl.is_empty())
                        }
                    }
                }
                "C06" => text_round_trip(before, after, *context, false),
                "C07" => text_round_trip(before, after, *context, true),
                "C09" => recognised_text(before, after, *context),
                _ => Err(format!("no text-pair judge for {prop}")),
            }
        }
        Case::BytePair { before, after, context } => {
            let bs = Seq::<u8>::from(&before[..]);
            let as_ = Seq::<u8>::from(&after[..]);
            match prop {
                "C01" | "C02" => {
                    let g = ChangesGenerator::<u8, ByteItemIndices>::new(&bs, &as_).generate();
                    if prop == "C01" {
                        script(before, after, &g)?;
                        script(before, after, &Changes::<u8>::new(bs, as_).changes)
                    } else {
                        alternation(before, after, &g)?;
                        if equal_pairs(before, after) > 30_000_000 {
                            return Ok(true);
                        }
                        let gen = ChangesGenerator::<u8, ByteItemIndices>::new(&bs, &as_);
                        lcs(before, after, (0, before.len()), (0, after.len()),
                            gen.longest_common_subsequence(Range(0, before.len()), Range(0, after.len())))
                    }
                }
                "C03" => index::<u8, ByteItemIndices>(&bs, &(0..=255u8).collect::<Vec<_>>()),
                "C04" | "C05" | "C22" => {
                    let ch = Changes::<u8>::new(bs, as_);
                    let cl: Vec<Vec<Change>> = ch.change_clumps(*context).map(|c| c.changes.clone()).collect();
                    if prop == "C22" {
                        byte_extents(before, after, &ch.changes, &cl)
                    } else if prop == "C04" {
                        clumps(before, after, &ch.changes, &cl, *context)
                    } else {
                        let recs = byte_clumps(before, after, *context);
                        if recs.len() != cl.len() {
                            return Err("not one record per clump".into());
                        }
                        for (c, t) in cl.iter().zip(&recs) {
                            record(before, after, c, (t.start.0, &t.before, t.start.1, &t.after, t.ctx))?;
                        }
                        Ok(!cl.is_empty())
                    }
                }
                "C08" => {
                    byte_round_trip(before, after, *context, false)?;
                    byte_round_trip(before, after, *context, true)
                }
                "C09" => recognised_bytes(before, after, *context),
                _ => Err(format!("no byte-pair judge for {prop}")),
            }
        }
        Case::TextRange { before, after, br, ar } => {
            let bs = Seq::<String>::from(before.as_str());
            let as_ = Seq::<String>::from(after.as_str());
            let g = ChangesGenerator::<String, StringItemIndices>::new(&bs, &as_);
            lcs(&lines_of(before), &lines_of(after), *br, *ar,
                g.longest_common_subsequence(Range(br.0, br.1), Range(ar.0, ar.1)))
        }
        Case::ByteRange { before, after, br, ar } => {
            let bs = Seq::<u8>::from(&before[..]);
            let as_ = Seq::<u8>::from(&after[..]);
            let g = ChangesGenerator::<u8, ByteItemIndices>::new(&bs, &as_);
            lcs(before, after, *br, *ar, g.longest_common_subsequence(Range(br.0, br.1), Range(ar.0, ar.1)))
        }
        Case::Fit { clump, text, offset, reverse } => fit(clump, text, *offset, *reverse),
        Case::Nearby { clump, next, text, offset, consumed, reverse } => {
            nearby(clump, next.as_ref(), text, *offset, *consumed, *reverse)
        }
        Case::ApplyText { clumps, text, reverse } => match prop {
            "C09" => claims_applied_text(clumps, text, *reverse),
            "C17" => io_cases::writers_text(clumps, text, *reverse),
            "C23" => followed(clumps, text, *reverse),
            _ => apply_any(clumps, text, *reverse, prop == "C14"),
        },
        Case::ApplyBytes { clumps, data, reverse } => match prop {
            "C09" => claims_applied_bytes(clumps, data, *reverse),
            "C17" => io_cases::writers_bytes(clumps, data, *reverse),
            "C26" => outcome_bytes(clumps, data, *reverse),
            _ => apply_any_bytes(clumps, data, *reverse),
        },
        Case::Many { clumps, kind, reverse } => many(*clumps, kind, *reverse),
        Case::Stream { data, chunks, error_at } => io_cases::stream(data, chunks, *error_at),
        Case::FilePair { before, after, context } => io_cases::file_pair(prop, before, after, *context),
        Case::KindOf { before, after } => io_cases::kind_of(before, after),
        Case::Content { data } => io_cases::writers_content(data),
        Case::Kind { before, after, context } => {
            io_cases::kind(before.as_deref(), after.as_deref(), *context)
        }
        Case::Cmd(c) => cmd::run(c),
        Case::Diff(c) => diff_cmd::run(c),
        Case::FileLine { line } => file_line::judge(line),
        Case::Parse { lines, at } if prop == "C22" => unified::extents(lines, *at),
        Case::Parse { lines, at } => unified::parse(lines, *at),
        Case::Render { before, after, context } => unified::render(before, after, *context),
        Case::Json(c) => json::round_trip(c),
    }
}

fn guarded(prop: &str, case: &Case) -> R {
    match catch_unwind(AssertUnwindSafe(|| check(prop, case))) {
        Ok(r) => r,
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("crashed: {msg}"))
        }
    }
}

fn contexts_for(i: usize, a: usize, thorough: bool) -> Vec<u8> {
    if a > 200 {
        vec![0, 1, 3, 127, 128, 254, 255]
    } else if thorough {
        vec![0, 1, 2, 3, CONTEXTS[i % CONTEXTS.len()]]
    } else {
        let mut v = vec![0, [1u8, 2, 3][i % 3]];
        if i % 4 == 0 {
            v.push(CONTEXTS[(i / 4) % CONTEXTS.len()]);
        }
        v
    }
}

/// random clumps, well-formed, not necessarily from any pair
fn random_clump(r: &mut Rng, k: usize, at: usize) -> (Vec<u8>, Vec<u8>, (u8, u8), (usize, usize)) {
    let cs = r.below(4);
    let ce = r.below(4);
    let head: Vec<u8> = (0..cs).map(|_| r.below(k) as u8).collect();
    let tail: Vec<u8> = (0..ce).map(|_| r.below(k) as u8).collect();
    let mut b = head.clone();
    let mut a = head;
    let core = r.range(1, 3);
    match r.below(3) {
        0 => b.extend((0..core).map(|_| r.below(k) as u8)),
        1 => a.extend((0..core).map(|_| r.below(k) as u8)),
        _ => {
            b.extend((0..core).map(|_| r.below(k) as u8));
            let core = r.range(1, 3);
            a.extend((0..core).map(|_| r.below(k) as u8));
        }
    }
    b.extend(tail.iter());
    a.extend(tail.iter());
    let d = r.below(4);
    (b, a, (cs as u8, ce as u8), (at, (at + d).saturating_sub(r.below(3))))
}

fn to_lines(s: &[u8]) -> Vec<String> {
    s.iter().map(|c| line(*c)).collect()
}

fn text_clump_of(x: (Vec<u8>, Vec<u8>, (u8, u8), (usize, usize))) -> Clump<String> {
    Clump { start: x.3, before: to_lines(&x.0), after: to_lines(&x.1), ctx: x.2 }
}

/// a patch for a case; none where the library crashes making it (C04 to C08 have that as a case)
fn made<T>(make: impl FnOnce() -> Vec<T>) -> Vec<T> {
    catch_unwind(AssertUnwindSafe(make)).unwrap_or_default()
}

/// (clumps, text, reverse): patches of real pairs against edited texts, and synthetic ones
fn patch_cases(tier: &str, seed: u64) -> Vec<(Vec<Clump<String>>, Vec<String>, bool)> {
    let n = if tier == "thorough" { 120_000 } else { 14_000 };
    let mut r = Rng::new(seed ^ 0xAB);
    let mut out = vec![];
    // exhaustive: one small clump against all small texts
    for cs in 0..3u8 {
        for ce in 0..3u8 {
            for core in 0..3 {
                let mut b: Vec<String> = vec!["h1\n".into(), "h2\n".into()][(2 - cs as usize)..].to_vec();
                let mut a = b.clone();
                if core != 1 { b.push("old\n".into()); }
                if core != 0 { a.push("new\n".into()); }
                let t: Vec<String> = vec!["t1\n".into(), "t2\n".into()][..ce as usize].to_vec();
                b.extend(t.clone());
                a.extend(t);
                let c = Clump { start: (1, 1), before: b.clone(), after: a.clone(), ctx: (cs, ce) };
                for pre in 0..4 {
                    for side in [&b, &a] {
                        for drop in 0..=side.len() {
                            let mut text: Vec<String> = (0..pre).map(|i| format!("p{i}\n")).collect();
                            for (i, l) in side.iter().enumerate() {
                                if i != drop { text.push(l.clone()); }
                            }
                            for rev in [false, true] {
                                out.push((vec![c.clone()], text.clone(), rev));
                                text.push("q\n".into());
                            }
                        }
                    }
                }
            }
        }
    }
    out.extend(long_clump_cases(seed));
    for i in 0..n {
        let reverse = r.chance(1, 2);
        let k = *r.pick(&[2usize, 3, 5, 9, 20]);
        if i % 3 == 0 {
            let cnt = r.range(1, 3);
            let mut cl = vec![];
            let mut at = r.below(5);
            for _ in 0..cnt {
                let c = random_clump(&mut r, k, at);
                at += c.0.len().max(1) + r.below(3);
                cl.push(text_clump_of(c));
            }
            // a text made of the clumps' sides, with noise
            let mut t: Vec<String> = to_lines(&random_seq(&mut r, k, 4));
            for c in &cl {
                match r.below(4) {
                    0 => t.extend(c.before.iter().cloned()),
                    1 => t.extend(c.after.iter().cloned()),
                    2 => {
                        let (s, e) = (r.below(c.ctx.0 as usize + 1), r.below(c.ctx.1 as usize + 1));
                        t.extend(c.before[s..c.before.len() - e].iter().cloned())
                    }
                    _ => {}
                }
                t.extend(to_lines(&random_seq(&mut r, k, 2)));
            }
            if r.chance(1, 3) {
                t = to_lines(&random_seq(&mut r, k, 6));
            }
            out.push((cl, t, reverse));
        } else {
            let max = *r.pick(&[6usize, 12, 25]);
            let a = random_seq(&mut r, k, max);
            let e = r.range(1, 4);
            let b = mutate(&mut r, &a, k, e);
            let ctx = *r.pick(&[0u8, 1, 2, 3]);
            let cl = made(|| text_clumps(&text(&a, r.chance(1, 6)), &text(&b, r.chance(1, 6)), ctx));
            let base = if r.chance(1, 4) { &b } else { &a };
            let e = r.below(4);
            let t = mutate(&mut r, base, k, e);
            out.push((cl, lines_of(&text(&t, r.chance(1, 6))), reverse));
        }
        if i % 4 == 1 {
            let (cl, t, reverse) = out.pop().unwrap();
            out.push(lookalikes(&mut r, cl, t, reverse));
        }
    }
    out
}

/// the same case with other lines, which are hard to tell apart
fn lookalikes(r: &mut Rng, mut cl: Vec<Clump<String>>, mut t: Vec<String>, reverse: bool) -> (Vec<Clump<String>>, Vec<String>, bool) {
    let mut pool: Vec<String> = (0..25).filter(|c| ![9, 11, 21, 22].contains(c)).map(line).collect();
    let long = "long ".repeat(60);
    for (i, c) in [(0, 'x'), (17, 'y'), (150, 'x'), (150, 'y'), (150, 'X'), (299, 'x'), (299, 'y')] {
        let mut l = long.clone();
        l.replace_range(i..i + 1, &c.to_string());
        pool.push(l + "\n");
    }
    for l in ["\u{e9}\n", "e\u{301}\n", "E\u{301}\n", "a\u{a0}\n", "a\u{200b}\n", "a\t\n", "\ta\n", "a a\n", "a  a\n", "a\ta\n", "a\0\n", "aa\n", "\u{ff41}\n", "\u{430}\n", "a\r\r\n", " \n", "0\n", "00\n"] {
        pool.push(l.into());
    }
    for i in (1..pool.len()).rev() {
        pool.swap(i, r.below(i + 1));
    }
    let mut of = std::collections::BTreeMap::<String, String>::new();
    for l in cl.iter_mut().flat_map(|c| c.before.iter_mut().chain(c.after.iter_mut())).chain(t.iter_mut()) {
        let (bare, end) = match l.strip_suffix('\n') {
            Some(bare) => (bare.to_string(), true),
            None => (l.clone(), false),
        };
        let new = match of.get(&bare) {
            Some(n) => n.clone(),
            None => {
                let n = pool.pop().unwrap_or(format!("{bare}\n"));
                of.insert(bare, n.clone());
                n
            }
        };
        // a last line cannot be empty
        *l = if end || new.len() == 1 { new } else { new[..new.len() - 1].to_string() };
    }
    (cl, t, reverse)
}

/// long clumps, long contexts: the text differs in one line, or in as many as may be trimmed
fn long_clump_cases(seed: u64) -> Vec<(Vec<Clump<String>>, Vec<String>, bool)> {
    let mut r = Rng::new(seed ^ 0x10C);
    let mut out = vec![];
    let named = |tag: &str, n: usize| -> Vec<String> { (0..n).map(|i| format!("{tag} {i}\n")).collect() };
    for core in [1usize, 2, 7, 8, 9, 16, 31, 33, 64, 65, 100, 129, 257, 300] {
        let ctx = r.below(4);
        let side = |tag: &str, n: usize| [named("head", ctx), named(tag, n), named("tail", ctx)].concat();
        let c = Clump { start: (2, 2), before: side("old", core), after: side("new", r.range(0, 300)), ctx: (ctx as u8, ctx as u8) };
        for reverse in [false, true] {
            let src = if reverse { &c.after } else { &c.before };
            let n = src.len();
            for at in [usize::MAX, 0, 1, n / 2, n.saturating_sub(9), n.saturating_sub(2), n.saturating_sub(1), r.below(n + 1)] {
                let mut t = named("pre", 2);
                t.extend(src.iter().cloned());
                t.extend(named("post", 2));
                if at < n {
                    t[2 + at] = "other\n".into();
                } else if at == n {
                    t.drain(..1);
                }
                out.push((vec![c.clone()], t, reverse));
            }
        }
    }
    for (cs, ce) in [(3usize, 3usize), (4, 4), (5, 2), (10, 10), (10, 0), (0, 10), (60, 100), (128, 127), (254, 254), (255, 255), (255, 3)] {
        let side = |tag: &str| [named("head", cs), named(tag, 1), named("tail", ce)].concat();
        let c = Clump { start: (1, 1), before: side("old"), after: side("new"), ctx: (cs as u8, ce as u8) };
        let m = cs.max(ce);
        for k in [1, 2, 3, 4, m / 2, m.saturating_sub(2), m.saturating_sub(1), m] {
            for ends in 0..3 {
                for moved in [0usize, 3] {
                    let mut t = named("pre", 1 + moved);
                    let base = t.len();
                    t.extend(c.before.iter().cloned());
                    let n = t.len();
                    for i in 0..k {
                        if ends != 1 && i < cs {
                            t[base + i] = "other\n".into();
                        }
                        if ends != 0 && i < ce {
                            t[n - 1 - i] = "other\n".into();
                        }
                    }
                    t.extend(named("post", 1));
                    out.push((vec![c.clone()], t, false));
                }
            }
        }
    }
    // many clumps none of which can be placed
    for n in [3usize, 60, 130, 300] {
        let cl: Vec<Clump<String>> = (0..n)
            .map(|i| Clump { start: (i, i), before: vec![format!("old {i}\n")], after: vec![format!("new {i}\n")], ctx: (0, 0) })
            .collect();
        for text in [vec![], named("other", n + 3), named("old", n).into_iter().rev().collect(), named("new", n).into_iter().step_by(2).collect()] {
            out.push((cl.clone(), text, false));
        }
    }
    out
}

/// a clump that is not where it was recorded, but some way before and some way after that
fn copies_on_both_sides() -> Vec<(Vec<Clump<String>>, Vec<String>, bool)> {
    let mut out = vec![];
    for d in [1usize, 4, 5, 16, 33, 63, 64, 65, 100, 127, 128, 129, 201, 255, 256, 257, 300, 600, 1025, 2100] {
        for (back, on) in [(d, d), (d + 1, d), (d, d + 1)] {
            // the copies whole, or one of them with its first or last line gone
            for gone in [None, Some((true, true)), Some((true, false)), Some((false, true)), Some((false, false))] {
                let lines = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
                let (before, after) = (lines(&["h1\n", "h2\n", "old\n", "t1\n", "t2\n"]), lines(&["h1\n", "h2\n", "new\n", "new\n", "t1\n", "t2\n"]));
                let reverse = d % 2 == 0;
                let src = if reverse { &after } else { &before };
                let at = back + 10;
                let mut text: Vec<String> = (0..at + on + 20).map(|i| format!("other {}\n", i % 97)).collect();
                for (k, p) in [at - back, at + on].into_iter().enumerate() {
                    for (j, l) in src.iter().enumerate() {
                        text[p + j] = l.clone();
                    }
                    match gone {
                        Some((first, front)) if first == (k == 0) => text[if front { p } else { p + src.len() - 1 }] = "gone\n".into(),
                        _ => {}
                    }
                }
                out.push((vec![Clump { start: (at, at), before, after, ctx: (2, 2) }], text, reverse));
            }
        }
    }
    out
}

/// patches with many clumps against displaced and edited large texts
fn big_patch_cases(seed: u64) -> Vec<(Vec<Clump<String>>, Vec<String>, bool)> {
    let mut r = Rng::new(seed ^ 0xBC);
    let mut out = vec![];
    for (i, (b, a)) in big_texts(seed).into_iter().enumerate() {
        for context in [0u8, 2] {
            let cl = made(|| text_clumps(&b, &a, context));
            for reverse in [false, true] {
                let mut t = lines_of(if reverse { &a } else { &b });
                if t.len() > 10_000 && context == 0 {
                    continue;
                }
                out.push((cl.clone(), t.clone(), reverse));
                let n = r.range(1, 300);
                for j in 0..n {
                    t.insert(0, format!("displaced {j}\n"));
                }
                out.push((cl.clone(), t.clone(), reverse));
                if i != 1 {
                    for _ in 0..10 {
                        let at = r.below(t.len());
                        if r.chance(1, 2) {
                            t.remove(at);
                        } else {
                            t.insert(at, "inserted\n".into());
                        }
                    }
                    out.push((cl.clone(), t, reverse));
                }
            }
        }
    }
    out
}

fn byte_patch_cases(tier: &str, seed: u64) -> Vec<(Vec<Clump<u8>>, Vec<u8>, bool)> {
    let n = if tier == "thorough" { 150_000 } else { 20_000 };
    let mut r = Rng::new(seed ^ 0xCD);
    let mut out = vec![];
    for (b, a) in big_bytes(seed).into_iter().take(if tier == "thorough" { 9 } else { 2 }) {
        for context in [0, 2] {
            let cl = made(|| byte_clumps(&b, &a, context));
            for reverse in [false, true] {
                let mut t = if reverse { a.clone() } else { b.clone() };
                out.push((cl.clone(), t.clone(), reverse));
                let at = t.len() / 2;
                if let Some(x) = t.get_mut(at) {
                    *x = x.wrapping_add(77);
                    out.push((cl.clone(), t, reverse));
                }
            }
        }
    }
    // long clumps that match but for one byte
    for len in [1usize, 2, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 66, 71, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 5000] {
        let mut some = |n: usize| -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() };
        let (before, after, pre, post) = (some(len), some(len + 3), some(5), some(4));
        for start in [0usize, 3] {
            let c = Clump { start: (start, start), before: before.clone(), after: after.clone(), ctx: (0, 0) };
            for reverse in [false, true] {
                let src = if reverse { &after } else { &before };
                let n = src.len();
                for at in [usize::MAX, 0, 1, n / 2, n - n % 8, n.saturating_sub(8), n.saturating_sub(2), n - 1] {
                    for tail in [0, 4] {
                        let mut t = pre[..start].to_vec();
                        t.extend(src);
                        if at < n {
                            t[start + at] ^= 1;
                        }
                        t.extend(&post[..tail]);
                        out.push((vec![c.clone()], t.clone(), reverse));
                        if at == usize::MAX && tail == 0 {
                            t.pop();
                            out.push((vec![c.clone()], t, reverse));
                        }
                    }
                }
            }
        }
    }
    for i in 0..n {
        let reverse = r.chance(1, 2);
        let k = *r.pick(&[1usize, 2, 3, 5]);
        if i % 3 == 0 {
            let cnt = r.range(1, 3);
            let mut at = r.below(4);
            let mut cl = vec![];
            for _ in 0..cnt {
                let c = random_clump(&mut r, k, at);
                at += if i % 2 == 0 { r.below(c.0.len() + 2) } else { c.0.len() + r.below(2) };
                cl.push(Clump { start: c.3, before: c.0, after: c.1, ctx: c.2 });
            }
            out.push((cl, random_seq(&mut r, k, 14), reverse));
        } else {
            let a = random_seq(&mut r, k, 12);
            let e = r.range(1, 3);
            let b = mutate(&mut r, &a, k, e);
            let cl = made(|| byte_clumps(&a, &b, *r.pick(&[0u8, 1, 2])));
            // a mix: some clumps already applied
            let mut t = if r.chance(1, 2) { a.clone() } else { b.clone() };
            if r.chance(2, 3) {
                t = mutate(&mut r, &t, k, 1);
            }
            out.push((cl, t, reverse));
        }
    }
    out
}

fn cases(prop: &str, tier: &str, seed: u64) -> Vec<Case> {
    let thorough = tier == "thorough";
    let mut out = vec![];
    let pair_cases = |out: &mut Vec<Case>, txt: bool, byt: bool, ctx: bool| {
        // spread, so that they do not end up in one batch
        let cs: &[u8] = if ctx { &[0, 3, 255] } else { &[0] };
        let mut big = vec![];
        for &context in cs {
            if txt {
                for (before, after) in big_texts(seed) {
                    big.push(Case::TextPair { before, after, context });
                }
            }
            if byt {
                for (before, after) in big_bytes(seed) {
                    big.push(Case::BytePair { before, after, context });
                }
            }
        }
        let mut big = big.into_iter();
        for (i, (a, b)) in pairs(tier, seed).into_iter().enumerate() {
            if i % 40 == 20 {
                out.extend(big.next());
            }
            let big = a.len().max(b.len());
            let cs = if ctx { contexts_for(i, big, thorough) } else { vec![0] };
            for context in cs {
                if txt {
                    out.push(Case::TextPair {
                        before: text(&a, i % 7 == 1 || i % 7 == 2),
                        after: text(&b, i % 7 == 2 || i % 7 == 3),
                        context,
                    });
                }
                if byt && (!txt || i % 2 == 0) {
                    out.push(Case::BytePair {
                        before: bytes(&a, (i % 3) as u8),
                        after: bytes(&b, (i % 3) as u8),
                        context,
                    });
                }
            }
        }
    };
    let files = |out: &mut Vec<Case>| {
        let mut more = io_cases::pairs_of_files(tier, seed);
        // spread
        let every = (out.len() / (more.len() + 1)).max(1);
        let old = std::mem::take(out);
        for (i, c) in old.into_iter().enumerate() {
            out.push(c);
            if i % every == 0 {
                out.extend(more.pop());
            }
        }
        out.extend(more);
    };
    let contents = |out: &mut Vec<Case>| {
        for data in io_cases::contents(&mut Rng::new(seed ^ 18), 200) {
            if data.len() < 200 {
                out.push(Case::Content { data });
            }
        }
    };
    match prop {
        "C01" => pair_cases(&mut out, true, true, false),
        "C03" => {
            // items that occur very often
            for n in [100usize, 300, 1100, 70_000] {
                out.push(Case::TextPair { before: "a\n".repeat(n), after: String::new(), context: 0 });
                out.push(Case::TextPair { before: "a\nb\n".repeat(n), after: String::new(), context: 0 });
                out.push(Case::BytePair { before: vec![7; n], after: vec![], context: 0 });
                out.push(Case::BytePair { before: (0..n).map(|i| (i % 3) as u8 * 100).collect(), after: vec![], context: 0 });
            }
            pair_cases(&mut out, true, true, false)
        }
        "C02" => {
            pair_cases(&mut out, true, true, false);
            let mut r = Rng::new(seed ^ 5);
            for (i, (a, b)) in pairs(tier, seed).into_iter().enumerate() {
                if a.len() + b.len() > 400 || (i > 3000 && i % 3 != 0) {
                    continue;
                }
                let x = r.below(a.len() + 1);
                let y = r.below(b.len() + 1);
                let br = (x, r.range(x, a.len()));
                let ar = (y, r.range(y, b.len()));
                if i % 2 == 0 {
                    out.push(Case::TextRange { before: text(&a, false), after: text(&b, false), br, ar });
                } else {
                    out.push(Case::ByteRange { before: bytes(&a, 1), after: bytes(&b, 1), br, ar });
                }
            }
            // large ones: everything but a little at the ends, and any stretches
            let cut = |r: &mut Rng, n: usize| {
                let x = r.below(n.min(9) + 1);
                match r.below(2) {
                    0 => (x, n - r.below((n - x).min(2) + 1)),
                    _ => (x, r.range(x, n)),
                }
            };
            for (before, after) in big_texts(seed) {
                let (n, m) = (lines_of(&before).len(), lines_of(&after).len());
                for _ in 0..2 {
                    let (br, ar) = (cut(&mut r, n), cut(&mut r, m));
                    out.push(Case::TextRange { before: before.clone(), after: after.clone(), br, ar });
                }
            }
            // a long common block, and a longer one elsewhere
            for (i, (short, long)) in [(3, 4), (17, 33), (130, 260), (260, 300), (1030, 1100), (4100, 9000), (17_000, 18_000), (33_000, 34_000), (65_600, 66_000)].into_iter().enumerate() {
                let of = |name: &str, n: usize| (0..n).map(|k| format!("{name} {k}\n")).collect::<String>();
                let (s, l, gap) = (of("s", short), of("l", long), of("g", [0, 3 * short, short / 2][i % 3]));
                for (before, after) in [
                    (format!("{s}x\n{l}"), format!("{s}{gap}{l}")),
                    (format!("{l}x\n{s}"), format!("{s}{gap}{l}")),
                    (format!("{l}{gap}{s}"), format!("{l}y\n{s}")),
                    (format!("{s}{gap}{l}"), format!("{l}y\n{s}")),
                ] {
                    let (n, m) = (lines_of(&before).len(), lines_of(&after).len());
                    out.push(Case::TextRange { before, after, br: (0, n), ar: (0, m) });
                }
            }
            // an item that occurs very often, the longest block at its last place
            for n in [300usize, 1100, 5000, 33_000, 70_000] {
                let often = "same\n".repeat(n);
                out.push(Case::TextRange { before: format!("{often}end\n"), after: "x\nsame\nsame\nend\n".into(), br: (0, n + 1), ar: (0, 4) });
                out.push(Case::TextRange { before: "x\nsame\nsame\nend\n".into(), after: format!("{often}end\n"), br: (0, 4), ar: (0, n + 1) });
                let often: Vec<u8> = [vec![0; n], vec![1]].concat();
                out.push(Case::ByteRange { before: often.clone(), after: vec![2, 0, 0, 1], br: (0, n + 1), ar: (0, 4) });
                out.push(Case::ByteRange { before: vec![2, 0, 0, 1], after: often, br: (0, 4), ar: (0, n + 1) });
            }
            for (before, after) in big_bytes(seed) {
                for _ in 0..2 {
                    let (br, ar) = (cut(&mut r, before.len()), cut(&mut r, after.len()));
                    out.push(Case::ByteRange { before: before.clone(), after: after.clone(), br, ar });
                }
            }
        }
        "C04" => pair_cases(&mut out, true, true, true),
        "C05" => {
            pair_cases(&mut out, true, true, true);
            files(&mut out)
        }
        "C22" => {
            pair_cases(&mut out, true, true, true);
            out.extend(unified::parse_cases(tier, seed).into_iter().skip(10_000));
        }
        "C06" | "C07" => {
            pair_cases(&mut out, true, false, true);
            files(&mut out)
        }
        "C08" => {
            pair_cases(&mut out, false, true, true);
            files(&mut out)
        }
        "C09" => {
            for reverse in [false, true] {
                out.push(Case::Many { clumps: 70_000, kind: Many::Lines, reverse });
                out.push(Case::Many { clumps: 70_000, kind: Many::Bytes, reverse });
                out.push(Case::Many { clumps: 3, kind: Many::Displaced(40_000), reverse });
            }
            pair_cases(&mut out, true, true, true);
            files(&mut out);
            for (clumps, text, reverse) in patch_cases(tier, seed) {
                out.push(Case::ApplyText { clumps, text, reverse });
            }
            for (clumps, text, reverse) in big_patch_cases(seed) {
                if text.len() < 10_000 {
                    out.push(Case::ApplyText { clumps, text, reverse });
                }
            }
            for (clumps, data, reverse) in byte_patch_cases(tier, seed) {
                out.push(Case::ApplyBytes { clumps, data, reverse });
            }
        }
        "C10" => {
            let mut r = Rng::new(seed ^ 10);
            for (clumps, text, reverse) in patch_cases(tier, seed) {
                for clump in clumps {
                    let st = clump.side(reverse).0 as isize;
                    for offset in [0, -st - 1, -st, r.below(7) as isize - 3, text.len() as isize - st] {
                        out.push(Case::Fit { clump: clump.clone(), text: text.clone(), offset, reverse });
                    }
                }
            }
        }
        "C11" => {
            let mut r = Rng::new(seed ^ 11);
            for (clumps, text, reverse) in copies_on_both_sides() {
                out.push(Case::Nearby { clump: clumps[0].clone(), next: None, text, offset: 0, consumed: 0, reverse });
            }
            // far away, in both directions
            for (k, n) in [70usize, 130, 260, 1030, 5000, 70_000].into_iter().enumerate() {
                for forward in [true, false] {
                    let mut text: Vec<String> = (0..n).map(|i| format!("other {}\n", i % 50)).collect();
                    let there: Vec<String> = ["x\n", "y\n", "z\n"].iter().map(|s| s.to_string()).collect();
                    let at = if forward { n - k } else { k };
                    text.splice(at..at, there.iter().cloned());
                    let mut after = there.clone();
                    after[1] = "changed\n".into();
                    let from = if forward { k } else { n };
                    out.push(Case::Nearby {
                        clump: Clump { start: (from, from), before: there, after, ctx: (1, 1) },
                        next: None,
                        text,
                        offset: 0,
                        consumed: 0,
                        reverse: false,
                    });
                }
            }
            for (clumps, text, reverse) in patch_cases(tier, seed) {
                for i in 0..clumps.len() {
                    let with_next = i + 1 < clumps.len() && r.chance(1, 2);
                    let offset = if r.chance(1, 2) { 0 } else { r.below(9) as isize - 4 };
                    let consumed = if r.chance(1, 2) { 0 } else { r.below(text.len() + 1) };
                    out.push(Case::Nearby {
                        clump: clumps[i].clone(),
                        next: if with_next { Some(clumps[i + 1].clone()) } else { None },
                        text: text.clone(),
                        offset,
                        consumed,
                        reverse,
                    });
                }
            }
        }
        "C12" | "C14" | "C23" => {
            for (clumps, text, reverse) in copies_on_both_sides() {
                out.push(Case::ApplyText { clumps, text, reverse });
            }
            for reverse in [false, true] {
                out.push(Case::Many { clumps: 70_000, kind: Many::Lines, reverse });
                out.push(Case::Many { clumps: 3, kind: Many::Displaced(40_000), reverse });
                out.push(Case::Many { clumps: 2, kind: Many::Displaced(-40_000), reverse });
                out.push(Case::Many { clumps: 9, kind: Many::Displaced(300), reverse });
                let mut r = Rng::new(seed ^ 0xFA5);
                for k in 0..24 {
                    let d = (r.range(1, 1 << (3 + k / 2)) + (k % 5)) as isize;
                    out.push(Case::Many { clumps: 2, kind: Many::Displaced(if k % 2 == 0 { d } else { -d }), reverse });
                }
                for d in [255, 256, 257, 1024, 1025, 4097, 9999, 20_001] {
                    out.push(Case::Many { clumps: 2, kind: Many::Displaced(if reverse { -d } else { d }), reverse });
                    out.push(Case::Many { clumps: 1, kind: Many::Displaced(if reverse { d } else { -d }), reverse });
                }
            }
            let mut big = big_patch_cases(seed).into_iter();
            for (i, (clumps, text, reverse)) in patch_cases(tier, seed).into_iter().enumerate() {
                out.push(Case::ApplyText { clumps, text, reverse });
                if i % 40 == 20 {
                    if let Some((clumps, text, reverse)) = big.next() {
                        out.push(Case::ApplyText { clumps, text, reverse });
                    }
                }
            }
        }
        "C13" | "C26" => {
            out.push(Case::Many { clumps: 70_000, kind: Many::Bytes, reverse: false });
            for (clumps, data, reverse) in byte_patch_cases(tier, seed) {
                out.push(Case::ApplyBytes { clumps, data, reverse });
            }
        }
        "C15" => out = io_cases::stream_cases(tier, seed),
        "C16" => {
            out = io_cases::kind_cases(tier, seed);
            contents(&mut out);
        }
        "C17" => {
            out = cmd::change_cases(tier, seed);
            for (clumps, text, reverse) in patch_cases(tier, seed).into_iter().step_by(7) {
                out.push(Case::ApplyText { clumps, text, reverse });
            }
            for (clumps, data, reverse) in byte_patch_cases(tier, seed).into_iter().step_by(7) {
                out.push(Case::ApplyBytes { clumps, data, reverse });
            }
        }
        "C18" => {
            out = cmd::add_remove_cases(tier, seed);
            contents(&mut out);
        }
        "C19" => out = unified::parse_cases(tier, seed),
        "C25" => out = file_line::cases(tier, seed),
        "C21" => out = json::cases(tier, seed),
        "C24" => out = diff_cmd::cases(tier, seed),
        "C20" => {
            let mut o = vec![];
            pair_cases(&mut o, true, false, true);
            for c in o {
                if let Case::TextPair { before, after, context } = c {
                    out.push(Case::Render { before, after, context });
                }
            }
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    out
}

fn short(e: &str) -> String {
    if e.chars().count() <= 3000 {
        return e.to_string();
    }
    e.chars().take(3000).chain(" ...".chars()).collect()
}

/// far beyond what any case takes
const CASE_SECONDS: f64 = 30.0;
const MEMORY_MB: usize = 6000;

fn resident_mb() -> usize {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|p| p.parse::<usize>().ok()))
        .map_or(0, |p| p * 4096 / 1_000_000)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let (prop, tier) = (&args[2], &args[3]);
            let seed: u64 = args[4].parse().unwrap();
            let budget: f64 = args[5].parse().unwrap();
            let start = Instant::now();
            let cs = cases(prop, tier, seed);
            let next = AtomicUsize::new(0);
            let done = AtomicUsize::new(0);
            let nontrivial = AtomicUsize::new(0);
            let worst: Mutex<Option<(usize, String)>> = Mutex::new(None);
            // what each worker is at, and since when
            let at: Mutex<Vec<Option<(usize, Instant)>>> = Mutex::new(vec![None; 8]);
            let left = AtomicUsize::new(8);
            std::thread::scope(|s| {
                s.spawn(|| {
                    while left.load(Ordering::SeqCst) > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        let long = at.lock().unwrap().iter().flatten().min_by_key(|x| x.1).copied();
                        let Some((i, since)) = long else { continue };
                        let why = if since.elapsed().as_secs_f64() > CASE_SECONDS {
                            format!("no end after {CASE_SECONDS} seconds")
                        } else if since.elapsed().as_secs_f64() > 1.0 && resident_mb() > MEMORY_MB {
                            format!("memory beyond {MEMORY_MB} MB")
                        } else {
                            continue;
                        };
                        let v = serde_json::json!({
                            "generated": cs.len(),
                            "evaluations": done.load(Ordering::SeqCst),
                            "nontrivial": nontrivial.load(Ordering::SeqCst),
                            "samples": [],
                            "wall_s": start.elapsed().as_secs_f64(),
                            "failure": {"property": prop, "reason": why, "case": cs[i]},
                        });
                        println!("{v}");
                        std::process::exit(0);
                    }
                });
                for me in 0..8 {
                    let (at, left) = (&at, &left);
                    let (cs, next, done, nontrivial, worst, start) = (&cs, &next, &done, &nontrivial, &worst, &start);
                    s.spawn(move || { loop {
                        let lo = next.fetch_add(32, Ordering::SeqCst);
                        if lo >= cs.len() || start.elapsed().as_secs_f64() > budget {
                            break;
                        }
                        if let Some((w, _)) = &*worst.lock().unwrap() {
                            if *w < lo {
                                break;
                            }
                        }
                        for i in lo..(lo + 32).min(cs.len()) {
                            done.fetch_add(1, Ordering::SeqCst);
                            at.lock().unwrap()[me] = Some((i, Instant::now()));
                            let verdict = guarded(prop, &cs[i]);
                            at.lock().unwrap()[me] = None;
                            match verdict {
                                Ok(nt) => {
                                    nontrivial.fetch_add(nt as usize, Ordering::SeqCst);
                                }
                                Err(e) => {
                                    let mut w = worst.lock().unwrap();
                                    if w.as_ref().map_or(true, |(j, _)| i < *j) {
                                        *w = Some((i, e));
                                    }
                                    break;
                                }
                            }
                        }
                    }
                    left.fetch_sub(1, Ordering::SeqCst);
                    });
                }
            });
            let worst = worst.into_inner().unwrap();
            let mut samples = vec![];
            for i in [cs.len() / 3, cs.len() / 2] {
                if let Some(c) = cs.get(i) {
                    let v = serde_json::to_value(c).unwrap();
                    if v.to_string().len() < 20_000 {
                        samples.push(v);
                    }
                }
            }
            let v = serde_json::json!({
                "generated": cs.len(),
                "evaluations": done.load(Ordering::SeqCst),
                "nontrivial": nontrivial.load(Ordering::SeqCst),
                "samples": samples,
                "wall_s": start.elapsed().as_secs_f64(),
                "failure": worst.map(|(i, e)| serde_json::json!({"property": prop, "reason": short(&e), "case": cs[i]})),
            });
            println!("{v}");
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let v = if v.get("witness").is_some() { v["witness"].clone() } else { v };
            let case: Case = serde_json::from_value(v["case"].clone()).unwrap();
            match guarded(v["property"].as_str().unwrap(), &case) {
                Ok(_) => println!("HOLDS"),
                Err(e) => {
                    println!("FAILS: {}", short(&e));
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: witness run PROP TIER SEED BUDGET | witness replay FILE");
            std::process::exit(2)
        }
    }
}
