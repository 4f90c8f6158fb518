//! C25: the file lines of unified diffs.
use pw_cub_diff_lib::unified_diff::{after_path_and_time_stamp, before_path_and_time_stamp};

use crate::gen::Rng;
use crate::oracle::R;
use crate::Case;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// takes things off the front of a text
struct Eat<'a>(&'a str);

impl Eat<'_> {
    fn one(&mut self, ok: impl Fn(char) -> bool) -> Option<()> {
        let c = self.0.chars().next().filter(|c| ok(*c))?;
        self.0 = &self.0[c.len_utf8()..];
        Some(())
    }
    fn text(&mut self, t: &str) -> Option<()> {
        self.0 = self.0.strip_prefix(t)?;
        Some(())
    }
    fn digits(&mut self, n: usize) -> Option<()> {
        for _ in 0..n {
            self.one(|c| c.is_ascii_digit())?;
        }
        Some(())
    }
    fn name(&mut self) -> Option<()> {
        self.one(|c| c.is_ascii_uppercase())?;
        self.one(|c| c.is_ascii_lowercase())?;
        self.one(|c| c.is_ascii_lowercase())
    }
    fn clock(&mut self) -> Option<()> {
        self.digits(2)?;
        self.text(":")?;
        self.digits(2)?;
        self.text(":")?;
        self.digits(2)
    }
    fn zone(&mut self) -> Option<()> {
        self.text(" ")?;
        self.one(|c| c == '+' || c == '-')?;
        self.digits(4)
    }
}

/// `2002-02-21 23:30:39[.942229878] -0800`
fn numeric(s: &str) -> Option<&str> {
    let mut e = Eat(s);
    e.digits(4)?;
    e.text("-")?;
    e.digits(2)?;
    e.text("-")?;
    e.digits(2)?;
    e.text(" ")?;
    e.clock()?;
    if e.0.starts_with('.') {
        e.text(".")?;
        e.digits(9)?;
    }
    e.zone()?;
    Some(&s[..s.len() - e.0.len()])
}

/// `Thu Feb 21 23:30:39 2002 -0800`
fn worded(s: &str) -> Option<&str> {
    let mut e = Eat(s);
    e.name()?;
    e.text(" ")?;
    e.name()?;
    e.text(" ")?;
    e.digits(2)?;
    e.text(" ")?;
    e.clock()?;
    e.text(" ")?;
    e.digits(4)?;
    e.zone()?;
    Some(&s[..s.len() - e.0.len()])
}

fn tail(s: &str) -> Option<Option<String>> {
    let t = s.trim_start();
    if t.len() == s.len() || t.strip_suffix('\n').unwrap_or(t).contains('\n') {
        return None;
    }
    Some(numeric(t).or_else(|| worded(t)).map(|x| x.to_string()))
}

fn said(line: &str, mark: &str) -> Option<(String, Option<String>)> {
    let rest = line.strip_prefix(mark)?;
    if let Some((path, after)) = rest.strip_prefix('"').and_then(|r| r.split_once('"')) {
        if !path.is_empty() {
            if let Some(stamp) = tail(after) {
                return Some((path.to_string(), stamp));
            }
        }
    }
    let n = rest.find(char::is_whitespace)?;
    if n == 0 {
        return None;
    }
    Some((rest[..n].to_string(), tail(&rest[n..])?))
}

pub fn judge(line: &str) -> R {
    let before = said(line, "--- ");
    let after = said(line, "+++ ");
    let got = before_path_and_time_stamp(line).map(|p| (p.file_path, p.time_stamp));
    ensure!(got == before, "as the before file line it says {got:?}, not {before:?}");
    let got = after_path_and_time_stamp(line).map(|p| (p.file_path, p.time_stamp));
    ensure!(got == after, "as the after file line it says {got:?}, not {after:?}");
    Ok(before.is_some() || after.is_some())
}

pub fn cases(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0x25);
    let mut out = vec![];
    let marks = ["--- ", "+++ ", "---", "+++", "-- ", "++ ", " --- ", "*** ", "---- ", "++++ ", "---\t", "--+ "];
    let paths = [
        "lao", "a/b.txt", "\"a b\"", "\"x\"", "\"a\tb\"", "\"\"", "\"", "\"open", "\"open end", "a\"b", "\"a\"b", "\"a\" \"b\"", "'q q'", "\"it's a \\ path\"",
        "", " ", "\u{e9}\u{4e2d}", "\"\u{e9} \u{4e2d}\"", "a\u{a0}b", "2002-02-21", "/dev/null", "\"--- x\"", "\\\"", "\"two\nlines\"",
        "a\\tb", "\"a\\tb\"", "\"a\\\\b\"", "\"a\\nb c\"", "\"\\303\\251\"", "\\101", "%20", "&amp;", "~/x", "$HOME", "./a", "a//b", "a/../b", "../x", "b/x", "\"b/x y\"",
        "a/", "\"./a\"", "/", "'q'", "A\u{301}", "\u{feff}x", "\"a \"", "\" a\"", "x.orig", "a:b", "C:\\x",
    ];
    let gaps = ["\t", " ", "", "  ", "\t\t ", "\n", "\u{3000}", "\r", " \n "];
    let stamps = [
        "", "2002-02-21 23:30:39 -0800", "2002-02-21 23:30:39.942229878 -0800", "2024-12-31 00:00:00 +1245", "Thu Feb 21 23:30:39 2002 -0800", "Mon Jan 01 00:00:00 1999 +0000",
        "(revision 7)", "x",
    ];
    let tails = ["\n", "", " \n", "\r\n", " more\n", "9\n", "\n\n", "\nmore", "\nmore\n", " 2002-02-21 23:30:39 -0800\n"];
    let mut all = vec![];
    for m in marks {
        for p in paths {
            for g in gaps {
                for s in stamps {
                    for t in tails {
                        all.push(format!("{m}{p}{g}{s}{t}"));
                    }
                }
            }
        }
    }
    // neighbours of lines
    let n = if tier == "thorough" { 400_000 } else { 60_000 };
    for _ in 0..n {
        let mut l: Vec<char> = format!("{}{}{}{}{}", r.pick(&marks[..2]), r.pick(&paths), r.pick(&gaps[..5]), r.pick(&stamps[1..6]), r.pick(&tails)).chars().collect();
        for _ in 0..1 + r.below(2) {
            let c = *r.pick(&['0', '9', 'a', 'Z', ' ', '-', '+', ':', '.', '"', '\t', '\n', ',']);
            let i = r.below(l.len() + 1);
            match r.below(3) {
                0 => l.insert(i, c),
                1 if i < l.len() => {
                    l.remove(i);
                }
                _ if i < l.len() => l[i] = c,
                _ => {}
            }
        }
        all.push(l.into_iter().collect());
    }
    for line in all {
        out.push(Case::FileLine { line });
    }
    out
}
