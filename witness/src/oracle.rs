//! Executable forms of the postconditions proved by the contracts (see /verif/contracts): each
//! judges observable behaviour of the real crate only.

use std::collections::HashSet;
use std::fmt::Debug;

use pw_diff_lib::apply_bytes::*;
use pw_diff_lib::apply_text::*;
use pw_diff_lib::byte_diff::*;
use pw_diff_lib::changes::*;
use pw_diff_lib::common_subsequence::*;
use pw_diff_lib::range::*;
use pw_diff_lib::sequence::*;
use pw_diff_lib::text_diff::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

pub type R = Result<bool, String>;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// (before start, before end, after start, after end)
pub fn extent(c: &Change) -> (usize, usize, usize, usize) {
    match c {
        Change::NoChange(s) => (s.0, s.0 + s.2, s.1, s.1 + s.2),
        Change::Delete(r, a) => (r.0, r.1, *a, *a),
        Change::Insert(b, r) => (*b, *b, r.0, r.1),
        Change::Replace(b, a) => (b.0, b.1, a.0, a.1),
    }
}

pub fn is_common(c: &Change) -> bool {
    matches!(c, Change::NoChange(_))
}

// ---------------------------------------------------------------- C01
pub fn script<T: PartialEq + Clone + Debug>(before: &[T], after: &[T], changes: &[Change]) -> R {
    let (mut i, mut j) = (0, 0);
    let mut rebuilt_after: Vec<T> = vec![];
    let mut rebuilt_before: Vec<T> = vec![];
    for c in changes {
        let (b0, b1, a0, a1) = extent(c);
        ensure!(b0 == i && a0 == j, "entry {c:?} does not start at ({i}, {j})");
        ensure!(b0 <= b1 && b1 <= before.len(), "before extent of {c:?} is out of bounds");
        ensure!(a0 <= a1 && a1 <= after.len(), "after extent of {c:?} is out of bounds");
        match c {
            Change::NoChange(_) => {
                ensure!(b1 > b0, "empty unchanged entry {c:?}");
                ensure!(
                    before[b0..b1] == after[a0..a1],
                    "entry {c:?} is marked unchanged but its contents differ"
                );
                rebuilt_after.extend_from_slice(&before[b0..b1]);
                rebuilt_before.extend_from_slice(&after[a0..a1]);
            }
            Change::Delete(..) => {
                ensure!(b1 > b0, "empty deletion {c:?}");
                rebuilt_before.extend_from_slice(&before[b0..b1]);
            }
            Change::Insert(..) => {
                ensure!(a1 > a0, "empty insertion {c:?}");
                rebuilt_after.extend_from_slice(&after[a0..a1]);
            }
            Change::Replace(..) => {
                ensure!(b1 > b0 && a1 > a0, "replacement {c:?} with an empty side");
                rebuilt_before.extend_from_slice(&before[b0..b1]);
                rebuilt_after.extend_from_slice(&after[a0..a1]);
            }
        }
        i = b1;
        j = a1;
    }
    ensure!(
        i == before.len() && j == after.len(),
        "script ends at ({i}, {j}), not at ({}, {})",
        before.len(),
        after.len()
    );
    ensure!(rebuilt_after == after, "script does not rebuild the after input");
    ensure!(rebuilt_before == before, "script does not rebuild the before input");
    Ok(changes.len() > 1)
}

// ---------------------------------------------------------------- C02
/// how many pairs of equal items there are
pub fn equal_pairs<T: Ord>(before: &[T], after: &[T]) -> usize {
    let mut n: std::collections::BTreeMap<&T, usize> = Default::default();
    for x in before {
        *n.entry(x).or_default() += 1;
    }
    after.iter().map(|x| n.get(x).copied().unwrap_or(0)).sum()
}

pub fn lcs<T: Ord + Clone + Debug>(
    before: &[T],
    after: &[T],
    br: (usize, usize),
    ar: (usize, usize),
    got: Option<CommonSubsequence>,
) -> R {
    let b = &before[br.0..br.1];
    let a = &after[ar.0..ar.1];
    // only the pairs of equal items count: for each item of `a`, where it is in `b`
    let mut at: std::collections::BTreeMap<&T, Vec<usize>> = Default::default();
    for (j, y) in b.iter().enumerate() {
        at.entry(y).or_default().push(j);
    }
    let mut best = 0;
    // (the row, the length) of the last block known to end at each place of `b`
    let mut ends = vec![(0usize, 0usize); b.len() + 1];
    for (i, x) in a.iter().enumerate() {
        for &j in at.get(x).into_iter().flatten().rev() {
            let len = 1 + if i > 0 && ends[j].0 == i { ends[j].1 } else { 0 };
            ends[j + 1] = (i + 1, len);
            best = best.max(len);
        }
    }
    match got {
        None => ensure!(best == 0, "nothing found although a common block of length {best} exists"),
        Some(c) => {
            ensure!(c.2 > 0, "empty block {c:?}");
            ensure!(
                br.0 <= c.0 && c.0 + c.2 <= br.1 && ar.0 <= c.1 && c.1 + c.2 <= ar.1,
                "block {c:?} is not inside {br:?}/{ar:?}"
            );
            ensure!(
                before[c.0..c.0 + c.2] == after[c.1..c.1 + c.2],
                "block {c:?} has different contents"
            );
            ensure!(c.2 == best, "block {c:?} is shorter than the longest, {best}");
        }
    }
    Ok(best > 0)
}

pub fn alternation<T: PartialEq + Clone + Debug>(before: &[T], after: &[T], changes: &[Change]) -> R {
    for w in changes.windows(2) {
        ensure!(
            is_common(&w[0]) != is_common(&w[1]),
            "{:?} and {:?} do not alternate",
            w[0],
            w[1]
        );
    }
    for c in changes {
        if let Change::Replace(b, a) = c {
            for x in &before[b.0..b.1] {
                ensure!(
                    !after[a.0..a.1].contains(x),
                    "{c:?} replaces stretches that share {x:?}"
                );
            }
        }
    }
    Ok(changes.len() > 1)
}

// ---------------------------------------------------------------- C03
pub fn index<T: PartialEq + Clone + Debug, I: ContentItemIndices<T>>(seq: &Seq<T>, probes: &[T]) -> R {
    let ind = I::generate_from(seq);
    for p in probes {
        let want: Vec<usize> = (0..seq.len()).filter(|i| &seq[*i] == p).collect();
        match ind.indices(p) {
            None => ensure!(want.is_empty(), "{p:?} is not indexed but occurs at {want:?}"),
            Some(v) => ensure!(
                !want.is_empty() && *v == want,
                "{p:?} is indexed at {v:?} but occurs at {want:?}"
            ),
        }
    }
    Ok(seq.len() > 1)
}

// ---------------------------------------------------------------- C04
pub fn clumps<T: PartialEq + Clone + Debug>(
    before: &[T],
    after: &[T],
    changes: &[Change],
    clumps: &[Vec<Change>],
    n: u8,
) -> R {
    let n = n as usize;
    let real: Vec<Change> = changes.iter().filter(|c| !is_common(c)).copied().collect();
    let got: Vec<Change> = clumps
        .iter()
        .flat_map(|c| c.iter().filter(|c| !is_common(c)).copied())
        .collect();
    ensure!(real == got, "clumps carry {got:?}, the script has {real:?}");
    // length of the unchanged stretch before / after each real change
    let around = |c: &Change| -> (usize, usize) {
        let at = changes.iter().position(|d| d == c).unwrap();
        let len = |k: Option<&Change>| match k {
            Some(Change::NoChange(s)) => s.2,
            _ => 0,
        };
        (
            len(if at > 0 { changes.get(at - 1) } else { None }),
            len(changes.get(at + 1)),
        )
    };
    let (mut i, mut j) = (0, 0);
    for clump in clumps {
        ensure!(clump.iter().any(|c| !is_common(c)), "clump {clump:?} has no change");
        let (b0, _, a0, _) = extent(&clump[0]);
        ensure!(b0 >= i && a0 >= j, "clump {clump:?} overlaps its predecessor");
        ensure!(
            b0 - i == a0 - j && before[i..b0] == after[j..a0],
            "stretch before clump {clump:?} is not unchanged"
        );
        let (mut x, mut y) = (b0, a0);
        for c in clump {
            let (c0, c1, d0, d1) = extent(c);
            ensure!(c0 == x && d0 == y, "clump {clump:?} is not contiguous at {c:?}");
            ensure!(
                c0 <= c1 && c1 <= before.len() && d0 <= d1 && d1 <= after.len(),
                "{c:?} is out of bounds"
            );
            if is_common(c) {
                ensure!(before[c0..c1] == after[d0..d1], "context {c:?} is not common");
            }
            x = c1;
            y = d1;
        }
        let lead = match clump.first() {
            Some(Change::NoChange(s)) => s.2,
            _ => 0,
        };
        let trail = match clump.last() {
            Some(Change::NoChange(s)) => s.2,
            _ => 0,
        };
        let first = clump.iter().find(|c| !is_common(c)).unwrap();
        let last = clump.iter().rev().find(|c| !is_common(c)).unwrap();
        let want_lead = n.min(around(first).0);
        let want_trail = n.min(around(last).1);
        ensure!(lead == want_lead, "clump {clump:?} opens with {lead} items of context, not {want_lead}");
        ensure!(trail == want_trail, "clump {clump:?} closes with {trail} items of context, not {want_trail}");
        i = x;
        j = y;
    }
    ensure!(
        before[i..] == after[j..],
        "what follows the last clump is not unchanged"
    );
    Ok(clumps.len() > 0)
}

// ---------------------------------------------------------------- C05
pub fn record<T: PartialEq + Clone + Debug>(
    before: &[T],
    after: &[T],
    changes: &[Change],
    got: (usize, &[T], usize, &[T], (u8, u8)),
) -> R {
    let (b0, _, a0, _) = extent(&changes[0]);
    let (_, b1, _, a1) = extent(changes.last().unwrap());
    ensure!(got.0 == b0 && got.2 == a0, "recorded starts ({}, {}) are not ({b0}, {a0})", got.0, got.2);
    ensure!(got.1 == &before[b0..b1], "recorded before items are not those at {b0}..{b1}");
    ensure!(got.3 == &after[a0..a1], "recorded after items are not those at {a0}..{a1}");
    let len = |c: &Change| match c {
        Change::NoChange(s) => s.2,
        _ => 0,
    };
    let want = (len(&changes[0]), len(changes.last().unwrap()));
    ensure!(
        (got.4 .0 as usize, got.4 .1 as usize) == want,
        "recorded context lengths {:?} are not {want:?}",
        got.4
    );
    let (s, e) = want;
    ensure!(got.1[..s] == got.3[..s], "leading context differs between the sides");
    ensure!(
        got.1[got.1.len() - e..] == got.3[got.3.len() - e..],
        "trailing context differs between the sides"
    );
    Ok(true)
}

// ---------------------------------------------------------------- patches

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Clump<T> {
    pub start: (usize, usize),
    pub before: Vec<T>,
    pub after: Vec<T>,
    pub ctx: (u8, u8),
}

impl<T: Clone> Clump<T> {
    pub fn side(&self, reverse: bool) -> (usize, &Vec<T>, usize, &Vec<T>) {
        if reverse {
            (self.start.1, &self.after, self.start.0, &self.before)
        } else {
            (self.start.0, &self.before, self.start.1, &self.after)
        }
    }
}

pub fn clump_json<T: Serialize>(c: &Clump<T>) -> serde_json::Value {
    json!({"context_lengths": [c.ctx.0, c.ctx.1],
           "before": {"start": c.start.0, "items": c.before},
           "after": {"start": c.start.1, "items": c.after}})
}

pub fn text_clump(c: &Clump<String>) -> TextChangeClump {
    serde_json::from_value(clump_json(c)).expect("clump from json")
}

pub fn text_patch(cs: &[Clump<String>]) -> TextChangeDiff {
    let v = json!({"before_path": "a", "after_path": "b",
                   "clumps": cs.iter().map(clump_json).collect::<Vec<_>>()});
    serde_json::from_value(v).expect("diff from json")
}

pub fn byte_patch(cs: &[Clump<u8>]) -> ByteChangeDiff {
    let v = json!({"before_path": "a", "after_path": "b", "compressed": false,
                   "clumps": cs.iter().map(clump_json).collect::<Vec<_>>()});
    serde_json::from_value(v).expect("diff from json")
}

/// the patch clumps the real code makes from a pair of texts
pub fn text_clumps(before: &str, after: &str, n: u8) -> Vec<Clump<String>> {
    let ch = Changes::<String>::new(Seq::<String>::from(before), Seq::<String>::from(after));
    ch.change_clumps(n)
        .map(|c| {
            let t = TextChangeClump::from(c);
            Clump {
                start: (t.before(false).start, t.after(false).start),
                before: t.before(false).items.to_vec(),
                after: t.after(false).items.to_vec(),
                ctx: t.context_lengths(),
            }
        })
        .collect()
}

pub fn byte_clumps(before: &[u8], after: &[u8], n: u8) -> Vec<Clump<u8>> {
    let ch = Changes::<u8>::new(Seq::<u8>::from(before), Seq::<u8>::from(after));
    ch.change_clumps(n)
        .map(|c| {
            let v = serde_json::to_value(ByteChangeClump::from(c)).unwrap();
            Clump {
                start: (
                    v["before"]["start"].as_u64().unwrap() as usize,
                    v["after"]["start"].as_u64().unwrap() as usize,
                ),
                before: serde_json::from_value(v["before"]["items"].clone()).unwrap(),
                after: serde_json::from_value(v["after"]["items"].clone()).unwrap(),
                ctx: serde_json::from_value(v["context_lengths"].clone()).unwrap(),
            }
        })
        .collect()
}

/// Takes what it is given in parts, as files and pipes may.
#[derive(Default)]
pub struct Sips(pub Vec<u8>);

impl std::io::Write for Sips {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().div_ceil(2);
        self.0.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- C06 / C07 / C08
pub fn text_round_trip(before: &str, after: &str, n: u8, reverse: bool) -> R {
    let cs = text_clumps(before, after, n);
    let patch = text_patch(&cs);
    let (from, to) = if reverse { (after, before) } else { (before, after) };
    let mut out = Sips::default();
    let stats = patch
        .apply_into(&Seq::<String>::from(from), &mut out, reverse)
        .map_err(|e| e.to_string())?;
    let out = out.0;
    ensure!(
        out == to.as_bytes(),
        "patched text is {:?}, not {to:?}",
        String::from_utf8_lossy(&out)
    );
    ensure!(
        stats.clean == cs.len()
            && stats.fuzzy + stats.already_applied + stats.already_applied_fuzzy + stats.failed == 0,
        "{} clumps but {stats:?}",
        cs.len()
    );
    Ok(!cs.is_empty())
}

pub fn byte_round_trip(before: &[u8], after: &[u8], n: u8, reverse: bool) -> R {
    let cs = byte_clumps(before, after, n);
    let patch = byte_patch(&cs);
    let (from, to) = if reverse { (after, before) } else { (before, after) };
    let mut out = Sips::default();
    patch
        .apply_into(&Seq::<u8>::from(from), &mut out, reverse)
        .map_err(|e| e.to_string())?;
    let out = out.0;
    ensure!(out == to, "patched bytes are {out:?}, not {to:?}");
    Ok(!cs.is_empty())
}

// ---------------------------------------------------------------- C09
pub fn recognised_text(before: &str, after: &str, n: u8) -> R {
    let cs = text_clumps(before, after, n);
    let patch = text_patch(&cs);
    ensure!(
        patch.is_already_applied(&Seq::<String>::from(after), false),
        "patch not recognised as applied to its own after text"
    );
    ensure!(
        patch.is_already_applied(&Seq::<String>::from(before), true),
        "patch not recognised as applied in reverse to its own before text"
    );
    Ok(!cs.is_empty())
}

pub fn recognised_bytes(before: &[u8], after: &[u8], n: u8) -> R {
    let cs = byte_clumps(before, after, n);
    let patch = byte_patch(&cs);
    ensure!(
        patch.already_applied(&Seq::<u8>::from(after), false),
        "patch not recognised as applied to its own after bytes"
    );
    ensure!(
        patch.already_applied(&Seq::<u8>::from(before), true),
        "patch not recognised as applied in reverse to its own before bytes"
    );
    Ok(!cs.is_empty())
}

fn present(hay: &[String], needle: &[String], s: usize, e: usize) -> bool {
    let core = &needle[s..needle.len() - e];
    (0..=hay.len()).any(|p| hay[p..].starts_with(core))
}

pub fn claims_applied_text(cs: &[Clump<String>], text: &[String], reverse: bool) -> R {
    let patch = text_patch(cs);
    let seq = Seq(text.to_vec().into_boxed_slice());
    if patch.is_already_applied(&seq, reverse) {
        for c in cs {
            let (_, _, _, target) = c.side(reverse);
            let ok = (0..=c.ctx.0 as usize)
                .any(|s| (0..=c.ctx.1 as usize).any(|e| s + e <= target.len() && present(text, target, s, e)));
            ensure!(ok, "reported as applied but the result of {c:?} is nowhere in the text");
        }
        Ok(!cs.is_empty())
    } else {
        Ok(false)
    }
}

pub fn claims_applied_bytes(cs: &[Clump<u8>], data: &[u8], reverse: bool) -> R {
    let patch = byte_patch(cs);
    let got = patch.already_applied(&Seq::<u8>::from(data), reverse);
    let want = cs.iter().all(|c| {
        let (_, _, st, target) = c.side(reverse);
        st <= data.len() && data[st..].starts_with(target)
    });
    ensure!(got == want, "reported applied: {got}, but it is {want}");
    Ok(want && !cs.is_empty())
}

// ---------------------------------------------------------------- C10 / C11
fn fits(c: &Clump<String>, text: &[String], pos: isize, red: (usize, usize), reverse: bool) -> bool {
    let (_, src, _, _) = c.side(reverse);
    let p = pos + red.0 as isize;
    p >= 0 && (p as usize) <= text.len() && text[p as usize..].starts_with(&src[red.0..src.len() - red.1])
}

/// the reductions tried before giving up, in order
fn trims(c: &Clump<String>) -> Vec<(usize, usize)> {
    let (s, e) = (c.ctx.0 as usize, c.ctx.1 as usize);
    (1..s.max(e)).map(|r| (r.min(s), r.min(e))).collect()
}

fn judge_fit(c: &Clump<String>, text: &[String], offset: isize, reverse: bool, got: Option<WillApply>) -> R {
    let pos = c.side(reverse).0 as isize + offset;
    let clean = fits(c, text, pos, (0, 0), reverse);
    match got {
        Some(WillApply::Cleanly) => ensure!(clean, "said to fit cleanly at {pos}, where it does not"),
        Some(WillApply::WithReductions(r)) => {
            let r = (r.0 as usize, r.1 as usize);
            ensure!(!clean, "said to need trimming {r:?} at {pos}, where it fits cleanly");
            ensure!(
                r.0 <= c.ctx.0 as usize && r.1 <= c.ctx.1 as usize,
                "trim {r:?} exceeds the context {:?}",
                c.ctx
            );
            ensure!(fits(c, text, pos, r, reverse), "said to fit at {pos} trimmed by {r:?}, where it does not");
            for t in trims(c) {
                if t.0 <= r.0 && t.1 <= r.1 && t != r {
                    ensure!(!fits(c, text, pos, t, reverse), "trim {r:?} used where {t:?} fits");
                }
            }
        }
        None => {
            ensure!(!clean, "said not to fit at {pos}, where it fits cleanly");
            for t in trims(c) {
                ensure!(!fits(c, text, pos, t, reverse), "said not to fit at {pos}, where it fits trimmed by {t:?}");
            }
        }
    }
    Ok(got.is_some())
}

pub fn fit(c: &Clump<String>, text: &[String], offset: isize, reverse: bool) -> R {
    let real = text_clump(c);
    let seq = Seq(text.to_vec().into_boxed_slice());
    judge_fit(c, text, offset, reverse, real.will_apply(&seq, offset, reverse))
}

fn qualifies(c: &Clump<String>, text: &[String], pos: isize, consumed: usize, reverse: bool) -> bool {
    if fits(c, text, pos, (0, 0), reverse) {
        return pos >= consumed as isize;
    }
    for t in trims(c) {
        if fits(c, text, pos, t, reverse) {
            return pos + t.0 as isize >= consumed as isize;
        }
    }
    false
}

pub fn nearby(
    c: &Clump<String>,
    next: Option<&Clump<String>>,
    text: &[String],
    offset: isize,
    consumed: usize,
    reverse: bool,
) -> R {
    let real = text_clump(c);
    let real_next = next.map(text_clump);
    let seq = Seq(text.to_vec().into_boxed_slice());
    let mut pd = ConsumableSeq::<String>::new(&seq);
    pd.advance_consumed_by(consumed);
    let got = real.will_apply_nearby(&pd, real_next.as_ref(), offset, reverse);
    let s0 = c.side(reverse).0 as isize + offset;
    if let Some((d, w)) = got {
        ensure!(d != 0, "zero displacement returned");
        judge_fit(c, text, offset + d, reverse, Some(w))?;
        let skip = match w {
            WillApply::Cleanly => 0,
            WillApply::WithReductions(r) => r.0 as isize,
        };
        ensure!(
            s0 + d + skip >= consumed as isize,
            "displacement {d} puts the clump at {} before the used-up {consumed}",
            s0 + d + skip
        );
        for i in 1..=d.abs() {
            if -i > d || (d > 0 && i <= d) {
                // backward position at distance i comes before d
                ensure!(
                    s0 - i < consumed as isize || !qualifies(c, text, s0 - i, consumed, reverse),
                    "displacement {d} returned although {} fits and is preferred",
                    -i
                );
            }
            if i < d || (d < 0 && i < -d && next.is_none()) {
                ensure!(
                    !qualifies_forward(c, text, s0 + i, consumed, reverse),
                    "displacement {d} returned although {i} fits and is closer"
                );
            }
        }
        return Ok(true);
    }
    if next.is_none() {
        for p in consumed as isize..=text.len() as isize {
            ensure!(
                p == s0 || !fits(c, text, p, (0, 0), reverse),
                "nothing found although the clump fits cleanly at {p}"
            );
        }
    } else {
        let mut p = s0 - 1;
        while p >= consumed as isize {
            ensure!(
                !fits(c, text, p, (0, 0), reverse),
                "nothing found although the clump fits cleanly at {p}"
            );
            p -= 1;
        }
    }
    Ok(false)
}

fn qualifies_forward(c: &Clump<String>, text: &[String], pos: isize, consumed: usize, reverse: bool) -> bool {
    // a clump cannot start, even trimmed, beyond the last position its core could take
    let (_, src, _, _) = c.side(reverse);
    let core = src.len() - c.ctx.0 as usize - c.ctx.1 as usize;
    pos + core as isize <= text.len() as isize && qualifies(c, text, pos, consumed, reverse)
}

// ---------------------------------------------------------------- C12 / C14
pub struct Counts {
    pub applied: usize,
    pub failed: usize,
    pub already: usize,
}

fn cat(lines: &[String]) -> Vec<u8> {
    lines.concat().into_bytes()
}

fn conflict(src: &[String], dst: &[String]) -> Vec<u8> {
    let mut v = b"<<<<<<<\n".to_vec();
    v.extend(cat(src));
    v.extend(b"=======\n");
    v.extend(cat(dst));
    v.extend(b">>>>>>>\n");
    v
}

/// Is `out` the text with disjoint matched stretches replaced and conflict blocks inserted?
/// With `counts`, also demand that many applied and failed clumps.
pub fn explains(cs: &[Clump<String>], text: &[String], reverse: bool, out: &[u8], counts: Option<&Counts>, drops: Option<usize>) -> bool {
    let mut seen: HashSet<(usize, usize, usize, usize, usize)> = HashSet::new();
    let mut todo = vec![(0usize, 0usize, 0usize, 0usize, 0usize)];
    while let Some(st) = todo.pop() {
        if !seen.insert(st) {
            continue;
        }
        let (k, c, o, ap, fa) = st;
        if k == cs.len() && c == text.len() && o == out.len() {
            match counts {
                None => return true,
                Some(n) => {
                    if n.applied == ap && n.failed == fa {
                        return true;
                    }
                }
            }
        }
        if c < text.len() && out[o..].starts_with(text[c].as_bytes()) {
            todo.push((k, c + 1, o + text[c].len(), ap, fa));
        }
        if k < cs.len() {
            let (_, src, _, dst) = cs[k].side(reverse);
            let n = |x: usize| if counts.is_some() { x + 1 } else { 0 };
            // found already applied: the text stays as it is
            match (counts, drops) {
                (None, Some(d)) => {
                    if ap < d {
                        todo.push((k + 1, c, o, ap + 1, fa))
                    }
                }
                _ => todo.push((k + 1, c, o, ap, fa)),
            }
            let block = conflict(src, dst);
            if out[o..].starts_with(&block) {
                todo.push((k + 1, c, o + block.len(), ap, n(fa)));
            }
            for s in 0..=cs[k].ctx.0 as usize {
                for e in 0..=cs[k].ctx.1 as usize {
                    if s + e > src.len() || s + e > dst.len() {
                        continue;
                    }
                    let a = &src[s..src.len() - e];
                    if !text[c..].starts_with(a) {
                        continue;
                    }
                    let b = cat(&dst[s..dst.len() - e]);
                    if out[o..].starts_with(&b) {
                        todo.push((k + 1, c + a.len(), o + b.len(), n(ap), fa));
                    }
                }
            }
        }
    }
    false
}

pub fn apply_any(cs: &[Clump<String>], text: &[String], reverse: bool, count: bool) -> R {
    let patch = text_patch(cs);
    let seq = Seq(text.to_vec().into_boxed_slice());
    let mut out = Sips::default();
    let stats = patch.apply_into(&seq, &mut out, reverse).map_err(|e| e.to_string())?;
    let out = out.0;
    let counts = Counts {
        applied: stats.clean + stats.fuzzy,
        failed: stats.failed,
        already: stats.already_applied + stats.already_applied_fuzzy,
    };
    if count {
        ensure!(
            counts.applied + counts.failed + counts.already == cs.len(),
            "{} clumps but {stats:?}",
            cs.len()
        );
    }
    ensure!(
        explains(cs, text, reverse, &out, if count { Some(&counts) } else { None }, Some(counts.already)),
        "output {:?} (statistics {stats:?}) is not the text with matched stretches replaced",
        String::from_utf8_lossy(&out)
    );
    if count {
        // what was applied cleanly or failed must be so: a clump that fits nowhere cannot be applied
        for c in cs {
            let (_, src, _, dst) = c.side(reverse);
            if text.is_empty() && !src.is_empty() && !dst.is_empty() && cs.len() == 1 {
                ensure!(stats.failed == 1, "nothing to match in an empty text but {stats:?}");
            }
        }
    }
    Ok(counts.applied > 0 && (counts.failed > 0 || counts.already > 0 || stats.fuzzy > 0) || cs.len() > 1)
}

// ---------------------------------------------------------------- C13
pub fn explains_bytes(cs: &[Clump<u8>], data: &[u8], reverse: bool, out: &[u8]) -> bool {
    // state: clump, position in data, position in out
    let mut todo = vec![(0usize, 0usize, 0usize)];
    let mut seen = HashSet::new();
    while let Some(st) = todo.pop() {
        if !seen.insert(st) {
            continue;
        }
        let (k, c, o) = st;
        if k == cs.len() {
            if data[c..] == out[o..] {
                return true;
            }
            continue;
        }
        todo.push((k + 1, c, o));
        let (s, src, _, dst) = cs[k].side(reverse);
        if s >= c && s <= data.len() && data[s..].starts_with(src) {
            let gap = s - c;
            if out.len() >= o + gap && out[o..o + gap] == data[c..s] && out[o + gap..].starts_with(dst) {
                todo.push((k + 1, s + src.len(), o + gap + dst.len()));
            }
        }
    }
    false
}

pub fn apply_any_bytes(cs: &[Clump<u8>], data: &[u8], reverse: bool) -> R {
    let patch = byte_patch(cs);
    let mut out = Sips::default();
    patch
        .apply_into(&Seq::<u8>::from(data), &mut out, reverse)
        .map_err(|e| e.to_string())?;
    let out = out.0;
    ensure!(
        explains_bytes(cs, data, reverse, &out),
        "output {out:?} is not the data with exact matches replaced"
    );
    Ok(out != data)
}

// ---------------------------------------------------------------- C26
pub fn outcome_bytes(cs: &[Clump<u8>], data: &[u8], reverse: bool) -> R {
    let there = |s: usize, v: &[u8]| s <= data.len() && data[s..].starts_with(v);
    let (mut want, mut written, mut used): (Vec<u8>, _, _) = (vec![], 0usize, 0usize);
    let mut applied = 0;
    for c in cs {
        let (s, src, t, dst) = c.side(reverse);
        if s >= used && there(s, src) {
            want.extend(&data[written..s]);
            want.extend(dst);
            used = s + src.len();
            written = used;
            applied += 1;
        } else if there(t, dst) {
            used = used.max(t + dst.len());
        }
    }
    want.extend(&data[written..]);
    let mut out = Sips::default();
    byte_patch(cs).apply_into(&Seq::<u8>::from(data), &mut out, reverse).map_err(|e| e.to_string())?;
    ensure!(out.0 == want, "patched bytes are {:?}, not {want:?}", out.0);
    Ok(applied > 0 && applied < cs.len())
}

// ---------------------------------------------------------------- very many clumps, very far away
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Many {
    /// every other line changed
    Lines,
    /// every other byte changed
    Bytes,
    /// clumps 50000 lines apart, all as far from where they were recorded
    Displaced(isize),
}

/// a patch with this many clumps, to be applied as a whole
pub fn many(n: usize, kind: &Many, reverse: bool) -> R {
    if let Many::Bytes = kind {
        let side = |v: u8| -> Vec<u8> { (0..n).flat_map(|i| [(i % 7) as u8, v]).collect() };
        let (b, a) = (side(100), side(200));
        let cs: Vec<Clump<u8>> =
            (0..n).map(|i| Clump { start: (2 * i + 1, 2 * i + 1), before: vec![100], after: vec![200], ctx: (0, 0) }).collect();
        let patch = byte_patch(&cs);
        let (from, to) = if reverse { (a, b) } else { (b, a) };
        let mut out = vec![];
        patch.apply_into(&Seq::<u8>::from(from), &mut out, reverse).map_err(|e| e.to_string())?;
        ensure!(out == to, "what is written is not the patched bytes");
        ensure!(patch.already_applied(&Seq::<u8>::from(to), reverse), "not recognised as applied");
        return Ok(true);
    }
    let (cs, from, to) = match kind {
        Many::Displaced(d) => {
            const APART: usize = 50_000;
            let at = |i: usize| 45_000 + i * APART;
            let line = |i: usize| format!("line {i}\n");
            let cs: Vec<Clump<String>> = (0..n)
                .map(|i| {
                    let before: Vec<String> = (at(i)..at(i) + 3).map(line).collect();
                    let mut after = before.clone();
                    after[1] = "new\n".into();
                    Clump { start: (at(i), at(i)), before, after, ctx: (1, 1) }
                })
                .collect();
            let side = |new: bool| -> Vec<String> {
                let first = (-*d).max(0) as usize;
                let more = (0..(*d).max(0)).map(|i| format!("more {i}\n"));
                more.chain((first..at(n)).map(|i| if new && (0..n).any(|k| i == at(k) + 1) { "new\n".into() } else { line(i) })).collect()
            };
            (cs, side(reverse), side(!reverse))
        }
        _ => {
            let side = |v: &str| -> Vec<String> { (0..n).flat_map(|i| [format!("same {}\n", i % 7), v.to_string()]).collect() };
            let one = |v: &str| vec![v.to_string()];
            let cs: Vec<Clump<String>> = (0..n)
                .map(|i| Clump { start: (2 * i + 1, 2 * i + 1), before: one("old\n"), after: one("new\n"), ctx: (0, 0) })
                .collect();
            let (b, a) = (side("old\n"), side("new\n"));
            if reverse { (cs, a, b) } else { (cs, b, a) }
        }
    };
    let patch = text_patch(&cs);
    let mut out = vec![];
    let stats = patch.apply_into(&Seq(from.into_boxed_slice()), &mut out, reverse).map_err(|e| e.to_string())?;
    ensure!(out == cat(&to), "what is written is not the patched text ({stats:?})");
    let fuzzy = usize::from(matches!(kind, Many::Displaced(_)));
    ensure!(
        (stats.clean, stats.fuzzy, stats.already_applied, stats.already_applied_fuzzy, stats.failed) == (n - fuzzy, fuzzy, 0, 0, 0),
        "{n} clumps, {fuzzy} of them displaced, but {stats:?}"
    );
    ensure!(patch.is_already_applied(&Seq(to.into_boxed_slice()), reverse), "not recognised as applied");
    Ok(true)
}

// ---------------------------------------------------------------- C22
pub fn extents(before: &[String], after: &[String], changes: &[Change], clumps: &[Vec<Change>]) -> R {
    let b = Seq(before.to_vec().into_boxed_slice());
    let a = Seq(after.to_vec().into_boxed_slice());
    for c in changes {
        let (b0, b1, a0, a1) = extent(c);
        basics(c, b0, b1, a0, a1).map_err(|e| format!("{c:?}: {e}"))?;
        if let Change::NoChange(block) = c {
            block_basics(*block).map_err(|e| format!("{c:?}: {e}"))?;
        }
    }
    for cl in clumps.iter().map(|c| &c[..]).chain(stretches(changes)) {
        let (b0, _, a0, _) = extent(&cl[0]);
        let (_, b1, _, a1) = extent(cl.last().unwrap());
        let make = || ChangeClump {
            before: &b,
            after: &a,
            changes: cl.to_vec(),
        };
        let real = make();
        basics(&real, b0, b1, a0, a1).map_err(|e| format!("clump {cl:?}: {e}"))?;
        ensure!(
            real.starts() == (b0, a0) && real.ends() == (b1, a1) && real.ranges() == (Range(b0, b1), Range(a0, a1)),
            "clump {cl:?}: starts/ends/ranges are wrong"
        );
        let t = TextChangeClump::from(make());
        basics(&t, b0, b1, a0, a1).map_err(|e| format!("patch clump of {cl:?}: {e}"))?;
        for rev in [false, true] {
            ensure!(
                t.before(rev) == t.after(!rev),
                "patch clump of {cl:?}: before({rev}) is not after({})",
                !rev
            );
            let l: Vec<&String> = t.before_lines(None, rev).collect();
            let r: Vec<&String> = t.after_lines(None, !rev).collect();
            ensure!(
                l == r && l.into_iter().eq(t.before(rev).items.iter()),
                "patch clump of {cl:?}: lines and reverse lines disagree"
            );
        }
        ensure!(
            t.before(false).items[..] == before[b0..b1] && t.after(false).items[..] == after[a0..a1],
            "patch clump of {cl:?}: sides are swapped or wrong"
        );
        for rev in [false, true] {
            snippet_basics(t.before(rev)).map_err(|e| format!("patch clump of {cl:?}: {e}"))?;
        }
    }
    Ok(!clumps.is_empty())
}

/// any stretch of a change list is a clump
fn stretches(changes: &[Change]) -> impl Iterator<Item = &[Change]> {
    let n = changes.len();
    (0..n.min(5)).chain(n.max(7) - 2..n).flat_map(move |i| (i + 1..=n.min(i + 4)).map(move |j| &changes[i..j]))
}

/// the same for clumps of bytes
pub fn byte_extents(before: &[u8], after: &[u8], changes: &[Change], clumps: &[Vec<Change>]) -> R {
    let b = Seq(before.to_vec().into_boxed_slice());
    let a = Seq(after.to_vec().into_boxed_slice());
    for cl in clumps.iter().map(|c| &c[..]).chain(stretches(changes)) {
        let (b0, _, a0, _) = extent(&cl[0]);
        let (_, b1, _, a1) = extent(cl.last().unwrap());
        let real = ChangeClump { before: &b, after: &a, changes: cl.to_vec() };
        basics(&real, b0, b1, a0, a1).map_err(|e| format!("clump {cl:?}: {e}"))?;
        let t = ByteChangeClump::from(real);
        for rev in [false, true] {
            let (x0, x1, side) = if rev { (a0, a1, after) } else { (b0, b1, before) };
            ensure!(
                t.before(rev) == t.after(!rev),
                "patch clump of {cl:?}: before({rev}) is not after({})",
                !rev
            );
            ensure!(
                ApplyClumpClean::before_start(&t, rev) == x0 && t.before(rev).start == x0 && t.before(rev).items[..] == side[x0..x1],
                "patch clump of {cl:?}: sides are swapped or wrong"
            );
            snippet_basics(t.before(rev)).map_err(|e| format!("patch clump of {cl:?}: {e}"))?;
        }
    }
    Ok(!clumps.is_empty())
}

fn block_basics(c: CommonSubsequence) -> Result<(), String> {
    let (b, a, n) = (c.0, c.1, c.2);
    ensure!(
        (c.before_start(), c.before_end(), c.after_start(), c.after_end(), c.len()) == (b, b + n, a, a + n, n)
            && c.before_range() == Range(b, b + n)
            && c.after_range() == Range(a, a + n),
        "the extents of the block are wrong"
    );
    ensure!(c.before_range().len() == n && c.after_range().is_empty() == (n == 0), "the lengths of the block are wrong");
    for size in [0u8, 1, 2, 3, 7, 127, 128, 254, 255] {
        let m = n.min(size as usize);
        ensure!(c.starts_trimmed(size) == CommonSubsequence(b + n - m, a + n - m, m), "the start is trimmed wrongly to {size}");
        ensure!(c.ends_trimmed(size) == CommonSubsequence(b, a, m), "the end is trimmed wrongly to {size}");
    }
    Ok(())
}

fn snippet_basics<T: Clone + PartialEq + Debug>(s: &pw_diff_lib::snippet::Snippet<T>) -> Result<(), String> {
    let n = s.items.len();
    ensure!(s.len() == n, "the length of a side is wrong");
    ensure!(s.range(None) == Range(0, n) && s.adj_length(None) == n && s.adj_start(3, None) == s.start + 3, "the extent of a side is wrong");
    ensure!(s.items(None).eq(s.items.iter()), "the items of a side are wrong");
    for (x, y) in [(0u8, 0u8), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (127, 3), (128, 127), (255, 255)] {
        let (p, q) = (x as usize, y as usize);
        if p + q <= n {
            ensure!(
                s.range(Some((x, y))) == Range(p, n - q) && s.adj_length(Some((x, y))) == n - p - q && s.adj_start(5, Some((x, y))) == s.start + 5 + p,
                "a side trimmed by ({x}, {y}) has the wrong extent"
            );
            ensure!(s.items(Some(Range(p, n - q))).eq(s.items[p..n - q].iter()), "a side trimmed by ({x}, {y}) has the wrong items");
        }
    }
    Ok(())
}

pub fn basics<C: ChangeBasics>(c: &C, b0: usize, b1: usize, a0: usize, a1: usize) -> Result<(), String> {
    for rev in [false, true] {
        let (x0, x1, y0, y1) = if rev { (a0, a1, b0, b1) } else { (b0, b1, a0, a1) };
        ensure!(c.before_start(rev) == x0 && c.before_end(rev) == x1, "before extent (reverse {rev}) is {}..{}, not {x0}..{x1}", c.before_start(rev), c.before_end(rev));
        ensure!(c.after_start(rev) == y0 && c.after_end(rev) == y1, "after extent (reverse {rev}) is {}..{}, not {y0}..{y1}", c.after_start(rev), c.after_end(rev));
        ensure!(c.before_length(rev) == x1 - x0 && c.after_length(rev) == y1 - y0, "lengths (reverse {rev}) are wrong");
        for (s, e) in [(0u8, 0u8), (1, 0), (0, 1), (1, 1), (2, 1), (3, 0), (0, 4), (100, 27), (128, 0), (3, 200), (255, 255)] {
            let (su, eu) = (s as usize, e as usize);
            if su + eu <= x1 - x0 {
                ensure!(c.before_range(Some((s, e)), rev) == Range(x0 + su, x1 - eu), "trimmed before range (reverse {rev}) is wrong");
                ensure!(c.my_before_range(Some((s, e)), rev) == Range(su, x1 - x0 - eu), "trimmed relative before range (reverse {rev}) is wrong");
            }
            if su + eu <= y1 - y0 {
                ensure!(c.after_range(Some((s, e)), rev) == Range(y0 + su, y1 - eu), "trimmed after range (reverse {rev}) is wrong");
                ensure!(c.my_after_range(Some((s, e)), rev) == Range(su, y1 - y0 - eu), "trimmed relative after range (reverse {rev}) is wrong");
            }
        }
        ensure!(c.before_range(None, rev) == Range(x0, x1) && c.my_before_range(None, rev) == Range(0, x1 - x0), "before range (reverse {rev}) is wrong");
        ensure!(c.after_range(None, rev) == Range(y0, y1) && c.my_after_range(None, rev) == Range(0, y1 - y0), "after range (reverse {rev}) is wrong");
    }
    Ok(())
}

// ---------------------------------------------------------------- C23
/// what is found at a displacement: the trim with which the clump fits there
fn found_at(c: &Clump<String>, text: &[String], pos: isize, reverse: bool) -> Option<(usize, usize)> {
    if fits(c, text, pos, (0, 0), reverse) {
        return Some((0, 0));
    }
    trims(c).into_iter().find(|t| fits(c, text, pos, *t, reverse))
}

/// ... not before the used-up text
fn found_unused(c: &Clump<String>, text: &[String], pos: isize, used: usize, reverse: bool) -> Option<(usize, usize)> {
    found_at(c, text, pos, reverse).filter(|t| pos + t.0 as isize >= used as isize)
}

/// the nearest displacement, the earlier of two
fn found_near(
    c: &Clump<String>,
    next: Option<&Clump<String>>,
    text: &[String],
    offset: isize,
    used: usize,
    reverse: bool,
) -> Option<(isize, (usize, usize))> {
    let (s, src, _, _) = c.side(reverse);
    let core = src.len() as isize - c.ctx.0 as isize - c.ctx.1 as isize;
    let end = match next {
        Some(n) => n.side(reverse).0 as isize + offset + c.ctx.0 as isize,
        None => text.len() as isize,
    } - core;
    let p = s as isize + offset;
    let mut i = 1;
    while p - i >= used as isize || p + i <= end {
        if p - i >= used as isize {
            if let Some(t) = found_at(c, text, p - i, reverse) {
                return Some((-i, t));
            }
        }
        if p + i <= end {
            if let Some(t) = found_unused(c, text, p + i, used, reverse) {
                return Some((i, t));
            }
        }
        i += 1;
    }
    None
}

pub fn followed(cs: &[Clump<String>], text: &[String], reverse: bool) -> R {
    let patch = text_patch(cs);
    let seq = Seq(text.to_vec().into_boxed_slice());
    let mut out = Sips::default();
    let stats = patch.apply_into(&seq, &mut out, reverse).map_err(|e| e.to_string())?;
    let out = out.0;
    let (mut want, mut used, mut offset) = (vec![], 0usize, 0isize);
    let mut n = [0usize; 5];
    let mut moved = false;
    for (k, c) in cs.iter().enumerate() {
        let next = cs.get(k + 1);
        let (s, src, t, dst) = c.side(reverse);
        let here = found_unused(c, text, s as isize + offset, used, reverse).map(|x| (0, x));
        let put = here.or_else(|| found_near(c, next, text, offset, used, reverse));
        if let Some((d, x)) = put {
            n[if d == 0 && x == (0, 0) { 0 } else { 1 }] += 1;
            offset += d;
            let at = (s as isize + offset + x.0 as isize) as usize;
            want.extend(cat(&text[used..at]));
            want.extend(cat(&dst[x.0..dst.len() - x.1]));
            used = at + src.len() - x.0 - x.1;
            moved |= d != 0;
            continue;
        }
        let here = found_at(c, text, t as isize + offset, !reverse).map(|x| (0, x));
        let skip = here.or_else(|| found_near(c, next, text, offset, used, !reverse));
        if let Some((d, x)) = skip {
            n[if d == 0 && x == (0, 0) { 2 } else { 3 }] += 1;
            offset += d;
            let to = (t as isize + offset + (dst.len() - x.1) as isize) as usize;
            if to > used {
                want.extend(cat(&text[used..to]));
                used = to;
            }
            moved |= d != 0;
            continue;
        }
        n[4] += 1;
        want.extend(conflict(src, dst));
    }
    want.extend(cat(&text[used..]));
    let got = [stats.clean, stats.fuzzy, stats.already_applied, stats.already_applied_fuzzy, stats.failed];
    ensure!(got == n, "clean, fuzzy, already applied, already applied fuzzily, failed: {got:?}, but looking in the stated order gives {n:?}");
    ensure!(
        out == want,
        "output {:?}, but looking in the stated order gives {:?}",
        String::from_utf8_lossy(&out),
        String::from_utf8_lossy(&want)
    );
    // the same for the question whether it is already applied
    let mut offset = 0isize;
    let mut yes = true;
    for (k, c) in cs.iter().enumerate() {
        let t = c.side(!reverse).0 as isize;
        if found_at(c, text, t + offset, !reverse).is_some() {
            continue;
        }
        match found_near(c, cs.get(k + 1), text, offset, 0, !reverse) {
            Some((d, _)) => offset += d,
            None => {
                yes = false;
                break;
            }
        }
        moved = true;
    }
    let got = patch.is_already_applied(&seq, reverse);
    ensure!(got == yes, "already applied: {got}, but looking in the stated order says {yes}");
    Ok(moved && cs.len() > 1)
}
