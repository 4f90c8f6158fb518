//! C19 and C20: unified diffs.
use pw_cub_diff_lib::unified_diff::{UnifiedClumpIter, UnifiedDiffClump};
use pw_diff_lib::apply_text::TextClumpBasics;
use pw_diff_lib::changes::{Change, ChangeBasics, Changes};
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::Seq;

use crate::gen::Rng;
use crate::oracle::{extent, is_common, R};
use crate::Case;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Span {
    start: u128,
    length: u128,
}

fn number(s: &str) -> Option<(u128, &str)> {
    let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    if n == 0 || n > 30 {
        return None;
    }
    Some((s[..n].parse().ok()?, &s[n..]))
}

fn span(s: &str) -> Option<(Span, &str)> {
    let (start, s) = number(s)?;
    match s.strip_prefix(',') {
        Some(s) => {
            let (length, s) = number(s)?;
            Some((Span { start, length }, s))
        }
        None => Some((Span { start, length: 1 }, s)),
    }
}

/// `@@ -start[,length] +start[,length] @@ anything`
fn header(s: &str) -> Option<(Span, Span)> {
    let (b, s) = span(s.strip_prefix("@@ -")?)?;
    let (a, s) = span(s.strip_prefix(" +")?)?;
    s.strip_prefix(" @@")?;
    Some((b, a))
}

fn without_newline(s: &str) -> String {
    s.strip_suffix('\n').unwrap_or(s).to_string()
}

struct Parsed {
    before: Vec<String>,
    after: Vec<String>,
    used: usize,
    context: Vec<String>,
    removed: Vec<String>,
    added: Vec<String>,
    marked: bool,
    /// lines before the first that is not context, and after the last
    front: usize,
    tail: usize,
    changed: bool,
}

/// what the lines after the header hold, if they add up to it
fn walk(lines: &[String], want: (u128, u128)) -> Option<Parsed> {
    let mut p = Parsed { before: vec![], after: vec![], used: 0, context: vec![], removed: vec![], added: vec![], marked: false, front: 0, tail: 0, changed: false };
    let mut last = None;
    loop {
        let full = p.before.len() as u128 >= want.0 && p.after.len() as u128 >= want.1;
        let next = lines.get(p.used);
        if full && !(last.is_some() && next.is_some_and(|l| l.starts_with('\\'))) {
            break;
        }
        let l = next?;
        let text = l.get(1..).unwrap_or("").to_string();
        match l.chars().next()? {
            ' ' => {
                p.before.push(text.clone());
                p.after.push(text.clone());
                p.context.push(text);
                if !p.changed {
                    p.front += 1;
                }
                if p.changed {
                    p.tail += 1;
                }
                last = Some(' ');
            }
            '-' => {
                p.before.push(text.clone());
                p.removed.push(text);
                p.changed = true;
                p.tail = 0;
                last = Some('-');
            }
            '+' => {
                p.after.push(text.clone());
                p.added.push(text);
                p.changed = true;
                p.tail = 0;
                last = Some('+');
            }
            '\\' => {
                let t = last?;
                p.marked = true;
                let chop = |v: &mut Vec<String>| {
                    let x = without_newline(v.last().unwrap());
                    *v.last_mut().unwrap() = x;
                };
                match t {
                    ' ' => chop(&mut p.context),
                    '-' => chop(&mut p.removed),
                    _ => chop(&mut p.added),
                }
                if t != '+' {
                    chop(&mut p.before);
                }
                if t != '-' {
                    chop(&mut p.after);
                }
                last = None;
            }
            _ => return None,
        }
        p.used += 1;
    }
    if p.before.len() as u128 == want.0 && p.after.len() as u128 == want.1 {
        Some(p)
    } else {
        None
    }
}

fn side(c: &UnifiedDiffClump, reverse: bool) -> Vec<String> {
    c.before_lines(None, reverse).cloned().collect()
}

/// the extents and the reverse view of what is parsed
pub fn extents(lines: &[String], at: usize) -> R {
    let seq = Seq::<String>::from(lines.concat().as_str());
    let c = match UnifiedDiffClump::get_from_at(&seq, at) {
        Ok(Some(c)) => c,
        _ => return Ok(false),
    };
    let (b, a) = (&c.starts_and_lengths.before, &c.starts_and_lengths.after);
    // lines are counted from one; the number of an empty stretch is that of the line before it
    let at = |start: usize, length: usize| if length == 0 { start } else { start.saturating_sub(1) };
    let (b0, a0) = (at(b.start, b.length), at(a.start, a.length));
    if b0.checked_add(b.length).is_none() || a0.checked_add(a.length).is_none() {
        return Ok(false);
    }
    crate::oracle::basics(&c, b0, b0 + b.length, a0, a0 + a.length).map_err(|e| format!("parsed clump: {e}"))?;
    ensure!(TextClumpBasics::context_lengths(&c) == c.context_lengths, "parsed clump: context lengths disagree");
    for rev in [false, true] {
        let side = if rev { &c.after_lines } else { &c.before_lines };
        let n = side.len();
        ensure!(c.before_lines(None, rev).eq(side.iter()) && c.after_lines(None, !rev).eq(side.iter()), "parsed clump: the lines (reverse {rev}) are wrong");
        for (s, e) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 3)] {
            if s + e <= n {
                let r = Range(s, n - e);
                ensure!(
                    c.before_lines(Some(r), rev).eq(side[s..n - e].iter()) && c.after_lines(Some(r), !rev).eq(side[s..n - e].iter()),
                    "parsed clump: the trimmed lines (reverse {rev}) are wrong"
                );
            }
        }
    }
    Ok(true)
}

pub fn parse(lines: &[String], at: usize) -> R {
    let text = lines.concat();
    let seq = Seq::<String>::from(text.as_str());
    let lines: Vec<String> = text.split_inclusive('\n').map(|s| s.to_string()).collect();
    let got = UnifiedDiffClump::get_from_at(&seq, at);
    let head = lines.get(at).and_then(|l| header(l));
    let (b, a) = match head {
        Some(h) => h,
        None => {
            ensure!(!matches!(got, Ok(Some(_))), "a clump where there is no header");
            return Ok(at < lines.len());
        }
    };
    let fits = |s: Span| s.start <= usize::MAX as u128 && s.length <= usize::MAX as u128;
    let want = if fits(b) && fits(a) { walk(&lines[at + 1..], (b.length, a.length)) } else { None };
    match (want, got) {
        (None, Ok(Some(_))) => Err("a clump that does not add up to its header is accepted".into()),
        (None, _) => Ok(true),
        (Some(_), Err(e)) => Err(format!("a proper clump is refused: {e:?}")),
        (Some(_), Ok(None)) => Err("a proper clump is not seen".into()),
        (Some(w), Ok(Some(c))) => {
            ensure!(w.before == c.before_lines.to_vec(), "before lines are {:?}, not {:?}", c.before_lines, w.before);
            ensure!(w.after == c.after_lines.to_vec(), "after lines are {:?}, not {:?}", c.after_lines, w.after);
            ensure!(side(&c, false) == w.before && side(&c, true) == w.after, "the clump does not give its lines");
            ensure!(c.lines_consumed == w.used + 1, "used {} lines, reports {}", w.used + 1, c.lines_consumed);
            let ctx = (w.front.min(255) as u8, w.tail.min(255) as u8);
            ensure!(c.context_lengths == ctx, "context lengths are {:?}, not {ctx:?}", c.context_lengths);
            let sal = &c.starts_and_lengths;
            ensure!(
                (sal.before.start as u128, sal.before.length as u128, sal.after.start as u128, sal.after.length as u128)
                    == (b.start, b.length, a.start, a.length),
                "the header is read as {sal:?}"
            );
            for reverse in [false, true] {
                ensure!(c.before_length(reverse) == side(&c, reverse).len(), "the clump misstates its length");
                let n = side(&c, reverse).len();
                if n > 1 {
                    let r = pw_diff_lib::range::Range(1, n);
                    let got: Vec<String> = c.before_lines(Some(r), reverse).cloned().collect();
                    ensure!(got == side(&c, reverse)[1..], "the clump does not give the lines of a range");
                }
            }
            Ok(w.used > 0)
        }
    }
}

fn lines_of(t: &str) -> Vec<String> {
    t.split_inclusive('\n').map(|s| s.to_string()).collect()
}

pub fn render(before: &str, after: &str, context: u8) -> R {
    let (b, a) = (lines_of(before), lines_of(after));
    let bs = Seq::<String>::from(before);
    let as_ = Seq::<String>::from(after);
    let ch = Changes::<String>::new(Seq::<String>::from(before), Seq::<String>::from(after));
    let clumps: Vec<Vec<Change>> = ch.change_clumps(context).map(|c| c.changes.clone()).collect();
    let texts: Vec<(String, Vec<String>)> =
        UnifiedClumpIter { before: &bs, after: &as_, iter: ch.change_clumps(context) }.map(|t| (t.header, t.lines)).collect();
    ensure!(texts.len() == clumps.len(), "{} clumps rendered as {}", clumps.len(), texts.len());
    for (c, (head, lines)) in clumps.iter().zip(&texts) {
        let (b0, _, a0, _) = extent(&c[0]);
        let (_, b1, _, a1) = extent(&c[c.len() - 1]);
        let at = |i: usize, n: usize| if n == 0 { i } else { i + 1 } as u128;
        let want = (
            Span { start: at(b0, b1 - b0), length: (b1 - b0) as u128 },
            Span { start: at(a0, a1 - a0), length: (a1 - a0) as u128 },
        );
        ensure!(header(head) == Some(want), "header {head:?} for {want:?}");
        ensure!(!head.trim_end_matches('\n').contains('\n'), "the header is not one line");
        let text = lines.concat();
        let real = lines_of(&text);
        let w = match walk(&real, (want.0.length, want.1.length)) {
            Some(w) => w,
            None => return Err(format!("the lines {lines:?} do not add up to {head:?}")),
        };
        ensure!(w.used == real.len(), "lines left over in {lines:?}");
        ensure!(real.iter().all(|l| l.ends_with('\n') || l.starts_with('\\')), "a line without newline is not marked in {lines:?}");
        let pick = |common: bool, from: &[String], before: bool| -> Vec<String> {
            c.iter()
                .filter(|x| is_common(x) == common)
                .flat_map(|x| {
                    let e = extent(x);
                    if before { from[e.0..e.1].to_vec() } else { from[e.2..e.3].to_vec() }
                })
                .collect()
        };
        ensure!(w.before == b[b0..b1], "the before side is spelt {:?}", w.before);
        ensure!(w.after == a[a0..a1], "the after side is spelt {:?}", w.after);
        ensure!(w.context == pick(true, &b, true), "the context is {:?}", w.context);
        ensure!(w.removed == pick(false, &b, true), "the removed lines are {:?}", w.removed);
        ensure!(w.added == pick(false, &a, false), "the added lines are {:?}", w.added);
        // and back
        let whole = format!("{}\n{}", head.trim_end_matches('\n'), text);
        match UnifiedDiffClump::get_from_at(&Seq::<String>::from(whole.as_str()), 0) {
            Ok(Some(p)) => {
                ensure!(p.before_lines[..] == b[b0..b1] && p.after_lines[..] == a[a0..a1], "parsing it gives other lines");
                ensure!(side(&p, false) == b[b0..b1] && side(&p, true) == a[a0..a1], "parsing it gives other sides");
                ensure!(p.lines_consumed == real.len() + 1, "parsing it uses {} lines", p.lines_consumed);
                ensure!(p.before_start(false) == b0 && p.before_start(true) == a0, "parsing it gives another position");
            }
            _ => return Err("the rendered clump does not parse".into()),
        }
    }
    Ok(!clumps.is_empty())
}

pub fn parse_cases(tier: &str, seed: u64) -> Vec<Case> {
    let n = if tier == "thorough" { 300_000 } else { 60_000 };
    let mut r = Rng::new(seed ^ 0x19);
    let mut out = vec![];
    let kinds = [" c\n", "-m\n", "+p\n", "\\ No newline at end of file\n", "x\n", "\n"];
    // every short body under every small header
    for b in 0..3usize {
        for a in 0..3usize {
            for len in 0..5u32 {
                for code in 0..(kinds.len() as u32).pow(len) {
                    let mut lines = vec![head(b, a, false)];
                    let mut x = code;
                    for _ in 0..len {
                        lines.push(kinds[(x % kinds.len() as u32) as usize].to_string());
                        x /= kinds.len() as u32;
                    }
                    out.push(Case::Parse { lines, at: 0 });
                }
            }
        }
    }
    // lines that start with anything else, in front of, between and after those that count
    let odd = ["\tc\n", "\u{a0}c\n", "=c\n", "*c\n", "!c\n", "<c\n", ">c\n", "~c\n", "?c\n", "#c\n", "/c\n", "\r\n", "\u{b}c\n", "\u{0}c\n", "\u{2212}c\n", "\u{ff0b}c\n", "c\n", ".c\n", "_c\n"];
    for o in odd {
        for at in 0..4 {
            for (b, a) in [(2, 2), (2, 3), (3, 2), (3, 3)] {
                let mut lines = vec![head(b, a, false), " c\n".into(), "-m\n".into(), "+p\n".into()];
                lines.insert(at + 1, o.into());
                out.push(Case::Parse { lines, at: 0 });
            }
        }
    }
    // long contexts before and after a change, and between two
    let ks = [0usize, 1, 254, 255, 256, 257, 300, 511, 512, 600];
    for s in ks {
        for e in ks {
            let mid = *r.pick(&ks);
            for twice in [false, true] {
                let body: Vec<String> = [
                    vec![" s\n"; s],
                    vec!["-m\n", "+p\n", "+q\n"],
                    vec![" m\n"; if twice { mid } else { 0 }],
                    if twice { vec!["-n\n"] } else { vec![] },
                    vec![" e\n"; e],
                ]
                .concat()
                .into_iter()
                .map(|l| l.to_string())
                .collect();
                let nb = body.iter().filter(|l| !l.starts_with('+')).count();
                let na = body.iter().filter(|l| !l.starts_with('-')).count();
                out.push(Case::Parse { lines: [vec![head(nb, na, false)], body].concat(), at: 0 });
            }
        }
    }
    for i in 0..n {
        let pre = r.below(3);
        let mut lines: Vec<String> = (0..pre).map(|_| r.pick(&["--- a\n", "+++ b\n", " x\n", "@@ -1,2\n"]).to_string()).collect();
        let mut body = vec![];
        let (mut nb, mut na) = (0, 0);
        let len = if i % 6000 == 100 { r.range(1000, 4000) } else if i % 50 == 0 { r.range(254, 520) } else { r.below(9) };
        let flat = r.chance(1, 3);
        for k in 0..len {
            let words = ["a", "b b", "", "\\ z", "- q", "+", " ", "tail  \t", "cr\r", "@@ -1 +1 @@", "\u{e9}\u{4e2d}", "\u{2028}\u{3000}", "-- a", "++ b\t2024", "-", "--", "\t", "\\"];
            let t = r.pick(&words);
            match if flat && len > 200 { if k == len / 2 { 1 } else { 0 } } else { r.below(3) } {
                0 => {
                    body.push(format!(" {t}\n"));
                    nb += 1;
                    na += 1;
                }
                1 => {
                    body.push(format!("-{t}\n"));
                    nb += 1;
                }
                _ => {
                    body.push(format!("+{t}\n"));
                    na += 1;
                }
            }
            if r.chance(1, 8) || (k + 1 == len && r.chance(1, 3)) {
                body.push(r.pick(&["\\ No newline at end of file\n", "\\\n"]).to_string());
            }
            if r.chance(1, 60) {
                body.push("\\ again\n".into());
            }
            if r.chance(1, 60) {
                body.push(r.pick(&["junk\n", "\n", "\u{e9}\n"]).to_string());
            }
        }
        if r.chance(1, 6) {
            nb = (nb + r.below(3)).saturating_sub(1);
            na = (na + r.below(3)).saturating_sub(1);
        }
        if i % 97 == 0 {
            lines.push(format!("@@ -{},{} +18446744073709551615,{} @@\n", r.below(3), r.pick(&["18446744073709551615", "18446744073709551616", "1"]), na));
        } else {
            lines.push(head(nb, na, r.chance(1, 2)));
        }
        if r.chance(1, 4) {
            let n = *r.pick(&["0", "1", "2", "00012", "4294967296", "18446744073709551615"]);
            let l = lines.pop().unwrap();
            lines.push(if r.chance(1, 2) { l.replacen("-7", &format!("-{n}"), 1) } else { l.replacen("+7", &format!("+{n}"), 1) });
        }
        lines.extend(body);
        for _ in 0..r.below(4) {
            lines.push(r.pick(&["@@ -1 +1 @@\n", " more\n", "\\ stray\n", "-x\n", "diff\n"]).to_string());
        }
        if r.chance(1, 5) {
            let x = without_newline(&lines.pop().unwrap());
            lines.push(x);
        }
        let at = if r.chance(1, 10) { r.below(lines.len() + 4) } else { pre };
        out.push(Case::Parse { lines, at });
    }
    out
}

fn head(b: usize, a: usize, tail: bool) -> String {
    let f = |n: usize| if n == 1 { "7".to_string() } else { format!("7,{n}") };
    format!("@@ -{} +{} @@{}\n", f(b), f(a), if tail { " fn x()" } else { "" })
}
