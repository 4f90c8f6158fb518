//! C21: a diff written out as JSON and read back.

use std::io::{self, Read, Write};
use std::os::unix::ffi::OsStrExt;

use pw_diff_lib::diff::Diff;
use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::gen::*;
use crate::io_cases::{contents, scratch};
use crate::oracle::{Clump, R};
use crate::Case;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Source {
    /// made from two files of these (last) names
    Files { before: Option<Vec<u8>>, after: Option<Vec<u8>>, context: u8, names: (Vec<u8>, Vec<u8>) },
    /// read from this text, if it is one that can be read
    Text(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct JsonCase {
    pub source: Source,
    /// the writer takes and the reader gives at most this many bytes at a time
    pub chunk: usize,
    /// the writer fails once it has this many bytes
    pub fails_at: Option<usize>,
}

struct Short {
    out: Vec<u8>,
    chunk: usize,
    fails_at: Option<usize>,
}

impl Write for Short {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.chunk);
        if let Some(f) = self.fails_at {
            if self.out.len() >= f && !buf.is_empty() {
                return Err(io::Error::new(io::ErrorKind::Other, "planned failure"));
            }
            n = n.min(f - self.out.len());
        }
        self.out.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Slow<'a>(&'a [u8], usize);

impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn round_trip(c: &JsonCase) -> R {
    match &c.source {
        Source::Text(t) => match Diff::from_reader(&mut t.as_bytes()) {
            Ok(d) => judge(&d, c),
            Err(_) => Ok(false),
        },
        Source::Files { before, after, context, names } => {
            let dir = scratch("json");
            let p = |n: &[u8]| dir.join(std::ffi::OsStr::from_bytes(n));
            let (b, a) = (p(&names.0), p(&names.1));
            if let Some(x) = before {
                std::fs::write(&b, x).unwrap();
            }
            if let Some(x) = after {
                std::fs::write(&a, x).unwrap();
            }
            let d = Diff::new(&b, &a, *context);
            let _ = std::fs::remove_dir_all(&dir);
            match d {
                Ok(d) => judge(&d, c),
                Err(_) => Ok(false),
            }
        }
    }
}

fn judge(d: &Diff, c: &JsonCase) -> R {
    let mut w = Short { out: vec![], chunk: c.chunk, fails_at: c.fails_at };
    let r = d.to_writer(&mut w);
    if let Err(e) = r {
        // names that are not text cannot be written, and writers may fail
        let named = !format!("{d:?}").contains("\\x");
        ensure!(c.fails_at.is_some() || !named, "cannot be written: {e}");
        return Ok(false);
    }
    let back = match Diff::from_reader(&mut Slow(&w.out, c.chunk)) {
        Ok(b) => b,
        Err(e) => return Err(format!("what was written cannot be read back: {e}")),
    };
    let (x, y) = (format!("{d:?}"), format!("{back:?}"));
    ensure!(x == y, "written: {x}; read back: {y}");
    // the parts on their own
    match (d, &back) {
        (Diff::TextChange(t), _) => {
            let mut w = Short { out: vec![], chunk: c.chunk, fails_at: None };
            t.to_writer(&mut w).map_err(|e| format!("text change cannot be written: {e}"))?;
            let back = pw_diff_lib::text_diff::TextChangeDiff::from_reader(&mut Slow(&w.out, c.chunk))
                .map_err(|e| format!("text change cannot be read back: {e}"))?;
            let (x, y) = (format!("{t:?}"), format!("{back:?}"));
            ensure!(x == y, "written: {x}; read back: {y}");
        }
        (Diff::ByteChange(t), _) => {
            let mut w = Short { out: vec![], chunk: c.chunk, fails_at: None };
            t.to_writer(&mut w).map_err(|e| format!("byte change cannot be written: {e}"))?;
            let back = pw_diff_lib::byte_diff::ByteChangeDiff::from_reader(&mut Slow(&w.out, c.chunk))
                .map_err(|e| format!("byte change cannot be read back: {e}"))?;
            let (x, y) = (format!("{t:?}"), format!("{back:?}"));
            ensure!(x == y, "written: {x}; read back: {y}");
        }
        _ => {}
    }
    Ok(true)
}

pub fn cases(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 21);
    let mut out = vec![];
    let all: Vec<Vec<u8>> = contents(&mut r, 300).into_iter().filter(|d| d.len() < 300).collect();
    let names: [&[u8]; 8] = [
        b"before", b"after", "na\u{ef}ve \u{1F600}".as_bytes(), b"quo\"te\\", b"line\nbreak", b"\x01\x1f\x7f", b"not \xff text", b"a b",
    ];
    let pick_chunk = |r: &mut Rng| *r.pick(&[1usize, 2, 7, 100, usize::MAX, usize::MAX]);
    let n = if tier == "thorough" { 12_000 } else { 1200 };
    for i in 0..n {
        let b = r.pick(&all).clone();
        let a = match r.below(3) {
            0 => {
                let mut a = b.clone();
                let at = r.below(a.len() + 1);
                a.insert(at, *r.pick(b"a\n\xff\"\\\0\x1b"));
                a
            }
            _ => r.pick(&all).clone(),
        };
        let (before, after) = match i % 5 {
            0 => (Some(b), None),
            1 => (None, Some(a)),
            _ => (Some(b), Some(a)),
        };
        let x = r.below(names.len());
        let y = (x + 1 + r.below(names.len() - 1)) % names.len();
        let fails_at = if r.chance(1, 6) { Some(r.below(400)) } else { None };
        out.push(Case::Json(JsonCase {
            source: Source::Files { before, after, context: *r.pick(&CONTEXTS), names: (names[x].to_vec(), names[y].to_vec()) },
            chunk: pick_chunk(&mut r),
            fails_at,
        }));
    }
    // any numbers, any strings
    let strings = ["", "\n", "a\r\n", "\u{0}\u{1f}\u{7f}\u{2028}", "\\\"/\u{8}\u{c}", "\u{10FFFF}\u{FFFD}", "plain\n", "<<<<<<<\n"];
    let nums = [0usize, 1, 2, 255, 256, u32::MAX as usize, (1 << 53) + 1, isize::MAX as usize, usize::MAX - 1, usize::MAX];
    for i in 0..n {
        let cnt = r.below(4);
        let mut clumps = vec![];
        for _ in 0..cnt {
            let side = |r: &mut Rng| (0..r.below(4)).map(|_| r.pick(&strings).to_string()).collect::<Vec<_>>();
            clumps.push(Clump {
                start: (*r.pick(&nums), *r.pick(&nums)),
                before: side(&mut r),
                after: side(&mut r),
                ctx: (r.below(256) as u8, r.below(256) as u8),
            });
        }
        let bytes = |s: &[String]| s.concat().into_bytes();
        let path = |r: &mut Rng| r.pick(&strings).to_string();
        let compressed = r.chance(1, 2);
        let v = match i % 6 {
            0 | 1 => json!({"TextChange": {"before_path": path(&mut r), "after_path": path(&mut r),
                "clumps": clumps.iter().map(|c| json!({"context_lengths": c.ctx,
                    "before": {"start": c.start.0, "items": c.before},
                    "after": {"start": c.start.1, "items": c.after}})).collect::<Vec<_>>()}}),
            2 | 3 => json!({"ByteChange": {"before_path": path(&mut r), "after_path": path(&mut r), "compressed": compressed,
                "clumps": clumps.iter().map(|c| json!({"context_lengths": c.ctx,
                    "before": {"start": c.start.0, "items": bytes(&c.before)},
                    "after": {"start": c.start.1, "items": bytes(&c.after)}})).collect::<Vec<_>>()}}),
            4 => {
                let kind = *r.pick(&["TextAdd", "TextRemove"]);
                json!({kind: {"path": path(&mut r), "lines": clumps.iter().flat_map(|c| c.before.clone()).collect::<Vec<_>>()}})
            }
            _ => {
                let kind = *r.pick(&["ByteAdd", "ByteRemove"]);
                json!({kind: {"path": path(&mut r), "compressed": compressed, "bytes": (0..r.below(300)).map(|_| r.below(256) as u8).collect::<Vec<_>>()}})
            }
        };
        out.push(Case::Json(JsonCase { source: Source::Text(v.to_string()), chunk: pick_chunk(&mut r), fails_at: None }));
    }
    // far beyond any buffer
    let lines: Vec<String> = (0..60).map(|i| format!("{i}{}\n", "\u{4e2d}x".repeat(9000 + i))).collect();
    let many: Vec<String> = (0..30_000).map(|i| format!("line {i}\n")).collect();
    let bytes: Vec<u8> = (0..300_000u32).map(|i| (i / 3) as u8).collect();
    let clump = |start: usize| json!({"context_lengths": (255, 0), "before": {"start": start, "items": many}, "after": {"start": start, "items": []}});
    for (i, v) in [
        json!({"TextAdd": {"path": "p", "lines": lines}}),
        json!({"TextChange": {"before_path": "b", "after_path": "a", "clumps": [clump(0), clump(70_000)]}}),
        json!({"ByteRemove": {"path": "p", "compressed": false, "bytes": bytes}}),
    ]
    .into_iter()
    .enumerate()
    {
        let chunk = [8191, usize::MAX, 65536][i];
        out.insert(i * 50, Case::Json(JsonCase { source: Source::Text(v.to_string()), chunk, fails_at: None }));
    }
    out
}
