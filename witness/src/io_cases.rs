//! C15 and C16: reading content, and which kind of diff two files give.

use std::io::{self, Read};
use std::path::PathBuf;

use pw_diff_lib::byte_diff::PathAndBytes;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::{Seq, WriteDataInto};
use pw_diff_lib::text_diff::PathAndLines;

use crate::gen::*;
use crate::oracle::R;
use crate::Case;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

struct Chunked<'a> {
    data: &'a [u8],
    pos: usize,
    chunks: &'a [usize],
    n: usize,
    error_at: Option<usize>,
    interrupt: bool,
}

impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.interrupt {
            self.interrupt = true;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupt = false;
        if let Some(e) = self.error_at {
            if self.pos >= e {
                return Err(io::Error::new(io::ErrorKind::Other, "planned failure"));
            }
        }
        let want = if self.chunks.is_empty() { usize::MAX } else { self.chunks[self.n % self.chunks.len()].max(1) };
        self.n += 1;
        let mut n = want.min(buf.len()).min(self.data.len() - self.pos);
        if let Some(e) = self.error_at {
            n = n.min(e - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn lines_ok(lines: &[String], data: &[u8]) -> Result<(), String> {
    ensure!(lines.concat().as_bytes() == data, "lines {lines:?} do not add up to the content");
    for (i, l) in lines.iter().enumerate() {
        ensure!(!l.is_empty(), "line {i} is empty");
        let p = l.find('\n');
        if i + 1 < lines.len() {
            ensure!(p == Some(l.len() - 1), "line {i} {l:?} does not end at its only newline");
        } else {
            ensure!(p.is_none() || p == Some(l.len() - 1), "last line {l:?} has an inner newline");
        }
    }
    Ok(())
}

pub fn scratch(tag: &str) -> PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let base = std::env::var("WITNESS_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let p = PathBuf::from(base).join(format!(
        "witness-{tag}-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    ));
    std::fs::create_dir_all(&p).unwrap();
    p
}

pub fn stream(data: &[u8], chunks: &[usize], error_at: Option<usize>) -> R {
    let valid = std::str::from_utf8(data).is_ok();
    let rd = || Chunked { data, pos: 0, chunks, n: 0, error_at, interrupt: false };
    let text = Seq::<String>::read(rd());
    let bytes = Seq::<u8>::read(rd());
    if error_at.is_some() {
        ensure!(text.is_err(), "text reading succeeded although the source failed");
        ensure!(bytes.is_err(), "byte reading succeeded although the source failed");
        return Ok(true);
    }
    match bytes {
        Ok(b) => ensure!(b.0[..] == *data, "bytes read differ from the content"),
        Err(e) => return Err(format!("byte reading failed: {e}")),
    }
    ensure!(text.is_ok() == valid, "reading as text: ok is {} for valid {valid}", text.is_ok());
    if let Ok(t) = &text {
        lines_ok(&t.0, data)?;
        let s = std::str::from_utf8(data).unwrap();
        lines_ok(&Seq::<String>::from(s).0, data)?;
        lines_ok(&Seq::<String>::from(s.to_string()).0, data)?;
    }
    ensure!(Seq::<u8>::from(data).0[..] == *data, "bytes from a slice differ");
    ensure!(Seq::<u8>::from(data.to_vec()).0[..] == *data, "bytes from a vector differ");
    // written out, whole and in part, in many small steps
    written("bytes", data, &|w| Seq::<u8>::from(data).write_into(w, Range(0, data.len())))?;
    written("bytes", data, &|w| Seq::<u8>::from(data).write_into_all_from(w, 0))?;
    let (i, j) = (data.len() / 3, data.len() - data.len() / 4);
    written("a stretch of bytes", &data[i..j], &|w| Seq::<u8>::from(data).write_into(w, Range(i, j)))?;
    written("the last bytes", &data[i..], &|w| Seq::<u8>::from(data).write_into_all_from(w, i))?;
    if let Ok(t) = &text {
        let n = t.0.len();
        written("lines", data, &|w| t.write_into(w, Range(0, n)))?;
        written("lines", data, &|w| t.write_into_all_from(w, 0))?;
        let (i, j) = (n / 3, n - n / 4);
        let part: Vec<u8> = t.0[i..j].concat().into_bytes();
        written("a stretch of lines", &part, &|w| t.write_into(w, Range(i, j)))?;
        let part: Vec<u8> = t.0[i..].concat().into_bytes();
        written("the last lines", &part, &|w| t.write_into_all_from(w, i))?;
    }
    // the same through files
    let dir = scratch("stream");
    let path = dir.join("f");
    std::fs::write(&path, data).unwrap();
    let l = PathAndLines::new(&path);
    let b = PathAndBytes::new(&path);
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    ensure!(l.is_ok() == valid, "PathAndLines::new: ok is {} for valid {valid}", l.is_ok());
    if let Ok(l) = l {
        let mut out = vec![];
        l.write_into(&mut out).unwrap();
        ensure!(out == data, "lines written back differ from the content");
        written("the recorded lines", data, &|w| l.write_into(w))?;
        ensure!(l.path() == path, "wrong path recorded");
        let v = serde_json::to_value(&l).unwrap();
        let ls: Vec<String> = serde_json::from_value(v["lines"].clone()).unwrap();
        lines_ok(&ls, data)?;
    }
    match b {
        Ok(b) => {
            let mut out = vec![];
            b.write_into(&mut out).unwrap();
            ensure!(out == data, "bytes written back differ from the content");
            written("the recorded bytes", data, &|w| b.write_into(w))?;
            ensure!(b.path() == path, "wrong path recorded");
        }
        Err(e) => return Err(format!("PathAndBytes::new failed: {e}")),
    }
    Ok(data.len() > 1)
}

fn written(what: &str, want: &[u8], go: &dyn Fn(&mut crate::oracle::Sips) -> io::Result<()>) -> Result<(), String> {
    let mut w = crate::oracle::Sips::default();
    go(&mut w).map_err(|e| format!("writing {what} fails: {e}"))?;
    ensure!(w.0 == want, "{what}: what is written is not what was read");
    Ok(())
}

pub fn contents(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let atoms: [&[u8]; 9] = [b"a", b"\n", b"\r\n", b"\r", b"\xff", "é".as_bytes(), b"\xc3", b"\0", b" b "];
    for len in 0..4usize {
        let mut idx = vec![0; len];
        loop {
            out.push(idx.iter().flat_map(|i| atoms[*i].to_vec()).collect());
            let mut k = 0;
            while k < len {
                idx[k] += 1;
                if idx[k] < atoms.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == len {
                break;
            }
        }
    }
    for _ in 0..n {
        let m = r.below(60);
        let pool = if r.chance(1, 2) { atoms.len() } else { 4 };
        out.push((0..m).flat_map(|_| atoms[r.below(pool)].to_vec()).collect());
    }
    // around the reader's buffer size
    for n in [255usize, 256, 1023, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 70_000] {
        let mut v = vec![b'x'; n];
        v.extend(b"\nrest");
        out.push(v.clone());
        v[100] = b'\n';
        v.extend("é\n".as_bytes());
        out.push(v.clone());
        // text up to a late byte
        v.push(0xff);
        out.push(v);
    }
    // far beyond any buffer
    let mut v: Vec<u8> = (0..140_000).flat_map(|i| format!("line {i}\n").into_bytes()).collect();
    out.push(v.clone());
    v.push(0xff);
    out.push(v);
    out.push(vec![b'y'; 1_500_000]);
    // many lines
    out.push((0..3000).flat_map(|i| format!("line {i}\n").into_bytes()).collect());
    out.push(vec![b'\n'; 2000]);
    out.push("é中😀\n".repeat(900).into_bytes());
    // a character across every multiple of the buffer size
    let mut v = vec![b'x'; 8191];
    v.extend("é".repeat(5000).as_bytes());
    out.push(v);
    for special in ["\u{feff}a\n", "a\u{2028}b\u{85}c\u{b}d\u{c}e", "\u{1a}", "a\n\u{feff}", "\0\0\n\0"] {
        out.push(special.as_bytes().to_vec());
    }
    for ill in [&b"\xed\xa0\x80"[..], b"\xc0\x80", b"\xf4\x90\x80\x80", b"a\n\xe2\x82", b"\x80", b"\xef\xbf\xbe", b"\xff\xfea\0", b"\xe9\n"] {
        out.push(ill.to_vec());
    }
    out
}

pub fn stream_cases(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 15);
    let n = if tier == "thorough" { 20_000 } else { 1500 };
    let mut out = vec![];
    for data in contents(&mut r, n) {
        let chunks: Vec<usize> = (0..r.below(4)).map(|_| r.range(1, 5)).collect();
        if r.chance(1, 5) {
            out.push(Case::Stream { data: data.clone(), chunks: chunks.clone(), error_at: Some(r.below(data.len() + 1)) });
        }
        out.push(Case::Stream { data, chunks, error_at: None });
    }
    out
}

pub fn kind(before: Option<&[u8]>, after: Option<&[u8]>, context: u8) -> R {
    let dir = scratch("kind");
    let (bp, ap) = (dir.join("before"), dir.join("after"));
    if let Some(b) = before {
        std::fs::write(&bp, b).unwrap();
    }
    if let Some(a) = after {
        std::fs::write(&ap, a).unwrap();
    }
    let got = Diff::new(&bp, &ap, context);
    let r = judge_kind(&got, before, after, &bp, &ap, context);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// other things than plain files: what there is counts as existing, what cannot be read is an error
pub fn kind_of(before: &str, after: &str) -> R {
    let dir = scratch("kindof");
    let r = kind_of_in(before, after, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

pub const FORMS: [&str; 9] = ["none", "text", "bytes", "empty", "dir", "null", "link", "link to bytes", "dangling"];

fn kind_of_in(before: &str, after: &str, dir: &std::path::Path) -> R {
    let text: &[u8] = b"one\ntwo\n";
    let bytes: &[u8] = b"one\n\xff";
    std::fs::write(dir.join("some text"), text).unwrap();
    std::fs::write(dir.join("some bytes"), bytes).unwrap();
    // the path, whether it exists, and what is read from it
    let make = |form: &str, name: &str| -> (PathBuf, bool, Option<Vec<u8>>) {
        let p = dir.join(name);
        let link = |to: &str| std::os::unix::fs::symlink(to, &p).unwrap();
        let content = match form {
            "text" => Some(text.to_vec()),
            "bytes" => Some(bytes.to_vec()),
            "empty" => Some(vec![]),
            _ => None,
        };
        if let Some(c) = &content {
            std::fs::write(&p, c).unwrap();
        }
        match form {
            "none" => (p, false, None),
            "dir" => {
                std::fs::create_dir(&p).unwrap();
                (p, true, None)
            }
            "null" => (PathBuf::from("/dev/null"), true, Some(vec![])),
            "link" => {
                link("some text");
                (p, true, Some(text.to_vec()))
            }
            "link to bytes" => {
                link("some bytes");
                (p, true, Some(bytes.to_vec()))
            }
            "dangling" => {
                link("nothing");
                (p, false, None)
            }
            _ => (p, true, content),
        }
    };
    let (bp, b_is, b) = make(before, "before");
    let (ap, a_is, a) = make(after, "after");
    let got = Diff::new(&bp, &ap, 2);
    if (b_is && b.is_none()) || (a_is && a.is_none()) {
        ensure!(got.is_err(), "a diff although one of the files cannot be read");
        return Ok(true);
    }
    judge_kind(&got, b.as_deref(), a.as_deref(), &bp, &ap, 2)
}

pub fn judge_kind(
    got: &io::Result<Diff>,
    before: Option<&[u8]>,
    after: Option<&[u8]>,
    bp: &std::path::Path,
    ap: &std::path::Path,
    _context: u8,
) -> R {
    let is_text = |d: &[u8]| std::str::from_utf8(d).is_ok();
    let want = match (before, after) {
        (None, None) => "error",
        (Some(b), Some(a)) => if is_text(b) && is_text(a) { "TextChange" } else { "ByteChange" },
        (Some(b), None) => if is_text(b) { "TextRemove" } else { "ByteRemove" },
        (None, Some(a)) => if is_text(a) { "TextAdd" } else { "ByteAdd" },
    };
    let name = match got {
        Err(_) => "error",
        Ok(Diff::TextChange(_)) => "TextChange",
        Ok(Diff::ByteChange(_)) => "ByteChange",
        Ok(Diff::TextAdd(_)) => "TextAdd",
        Ok(Diff::ByteAdd(_)) => "ByteAdd",
        Ok(Diff::TextRemove(_)) => "TextRemove",
        Ok(Diff::ByteRemove(_)) => "ByteRemove",
    };
    ensure!(name == want, "diff is {name}, not {want}");
    let one = |path: &std::path::Path, out: Vec<u8>, data: &[u8]| -> R {
        ensure!(path == bp, "recorded under {path:?}, not under the before path");
        ensure!(out == data, "recorded content differs");
        Ok(true)
    };
    match got {
        Ok(Diff::TextAdd(p)) | Ok(Diff::TextRemove(p)) => {
            let mut out = vec![];
            p.write_into(&mut out).unwrap();
            one(p.path(), out, before.or(after).unwrap())
        }
        Ok(Diff::ByteAdd(p)) | Ok(Diff::ByteRemove(p)) => {
            let mut out = vec![];
            p.write_into(&mut out).unwrap();
            one(p.path(), out, before.or(after).unwrap())
        }
        Ok(Diff::TextChange(d)) => {
            use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
            ensure!(d.before_path() == bp && d.after_path() == ap, "wrong paths recorded");
            let mut out = vec![];
            d.apply_into(&Seq::<String>::from(std::str::from_utf8(before.unwrap()).unwrap()), &mut out, false)
                .map_err(|e| e.to_string())?;
            ensure!(out == after.unwrap(), "the recorded change does not lead to the after file");
            Ok(true)
        }
        Ok(Diff::ByteChange(d)) => {
            use pw_diff_lib::apply_bytes::ApplyClumpsClean;
            ensure!(d.before_path() == bp && d.after_path() == ap, "wrong paths recorded");
            let mut out = vec![];
            d.apply_into(&Seq::<u8>::from(before.unwrap()), &mut out, false).map_err(|e| e.to_string())?;
            ensure!(out == after.unwrap(), "the recorded change does not lead to the after file");
            Ok(true)
        }
        Err(_) => Ok(true),
    }
}

pub fn kind_cases(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 16);
    let mut out = vec![Case::Kind { before: None, after: None, context: 2 }];
    let n = if tier == "thorough" { 6000 } else { 700 };
    let all = contents(&mut r, 300);
    for before in FORMS {
        for after in FORMS {
            out.push(Case::KindOf { before: before.into(), after: after.into() });
        }
    }
    // large files
    for d in all.iter().filter(|d| d.len() > 1000) {
        out.push(Case::Kind { before: Some(d.clone()), after: None, context: 2 });
        out.push(Case::Kind { before: None, after: Some(d.clone()), context: 2 });
        out.push(Case::Kind { before: Some(d.clone()), after: Some(b"a\n".to_vec()), context: 3 });
        out.push(Case::Kind { before: Some(b"a\n".to_vec()), after: Some(d.clone()), context: 3 });
    }
    for d in &all {
        if d.len() <= 1000 {
            out.push(Case::Kind { before: Some(d.clone()), after: None, context: 2 });
            out.push(Case::Kind { before: None, after: Some(d.clone()), context: 2 });
        }
    }
    for _ in 0..n {
        let a = r.pick(&all).clone();
        let b = if r.chance(1, 3) { a.clone() } else { r.pick(&all).clone() };
        if a.len() + b.len() < 400 {
            out.push(Case::Kind { before: Some(a), after: Some(b), context: *r.pick(&CONTEXTS) });
        }
    }
    out
}

/// Writes at most `step` bytes at a time, fails once `room` bytes are written.
struct Grudging {
    got: Vec<u8>,
    step: usize,
    room: Option<usize>,
    interrupt: bool,
}

impl io::Write for Grudging {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.interrupt = !self.interrupt;
        if self.interrupt && self.step < 5 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let left = self.room.map_or(usize::MAX, |r| r - self.got.len());
        if left == 0 && !buf.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "no room"));
        }
        let n = buf.len().min(self.step).min(left);
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Whatever is written is written in full, or the failure is reported.
fn grudging(what: &str, want: &[u8], go: &dyn Fn(&mut Grudging) -> io::Result<()>) -> R {
    for step in [1, 3, usize::MAX] {
        let mut w = Grudging { got: vec![], step, room: None, interrupt: false };
        go(&mut w).map_err(|e| format!("{what}: fails although nothing failed: {e}"))?;
        ensure!(w.got == want, "{what}: {:?} is written, {step} bytes at a time, not {want:?}", w.got);
    }
    for room in (0..want.len()).step_by(want.len() / 600 + 1).chain(want.len().saturating_sub(3)..want.len()) {
        let mut w = Grudging { got: vec![], step: usize::MAX, room: Some(room), interrupt: false };
        ensure!(go(&mut w).is_err(), "{what}: succeeds although writing failed after {room} of {} bytes", want.len());
    }
    Ok(want.len() > 1)
}

pub fn writers_text(cs: &[crate::oracle::Clump<String>], text: &[String], reverse: bool) -> R {
    use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
    let patch = crate::oracle::text_patch(cs);
    let seq = Seq(text.to_vec().into_boxed_slice());
    let mut want = vec![];
    patch.apply_into(&seq, &mut want, reverse).map_err(|e| e.to_string())?;
    grudging("patching a text", &want, &|w| patch.apply_into(&seq, w, reverse).map(|_| ()))
}

pub fn writers_bytes(cs: &[crate::oracle::Clump<u8>], data: &[u8], reverse: bool) -> R {
    use pw_diff_lib::apply_bytes::ApplyClumpsClean;
    let patch = crate::oracle::byte_patch(cs);
    let seq = Seq::<u8>::from(data);
    let mut want = vec![];
    patch.apply_into(&seq, &mut want, reverse).map_err(|e| e.to_string())?;
    grudging("patching bytes", &want, &|w| patch.apply_into(&seq, w, reverse).map(|_| ()))
}

/// the content of an added or removed file
pub fn writers_content(data: &[u8]) -> R {
    let dir = scratch("content");
    let path = dir.join("f");
    std::fs::write(&path, data).unwrap();
    let l = PathAndLines::new(&path);
    let b = PathAndBytes::new(&path);
    let _ = std::fs::remove_file(&path);
    let nothing = (PathAndLines::new(&path).is_ok(), PathAndBytes::new(&path).is_ok());
    let none = (PathAndLines::new(&dir).is_ok(), PathAndBytes::new(&dir).is_ok());
    let _ = std::fs::remove_dir(&dir);
    ensure!(nothing == (false, false), "a file that is not there is read");
    ensure!(none == (false, false), "a directory is read as if it were a file");
    if let Ok(l) = l {
        grudging("writing lines", data, &|w| l.write_into(w))?;
    }
    let b = b.map_err(|e| e.to_string())?;
    grudging("writing bytes", data, &|w| b.write_into(w))
}

/// pairs of files, alike and not, with every kind of line end
pub fn pairs_of_files(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 21);
    let n = if tier == "thorough" { 4000 } else { 500 };
    let mut out = vec![];
    let mut add = |r: &mut Rng, before: Vec<u8>, after: Vec<u8>| {
        let context = *r.pick(&CONTEXTS);
        out.push(Case::FilePair { before, after, context });
    };
    let lines: Vec<&[u8]> = vec![
        b"a\n", b"b\n", b"a\r\n", b"\r\n", b"\n", b" a \n", b"a\rb\n", "\u{feff}a\n".as_bytes(), b"\0\n", b"\t\n", "\u{e9}\u{4e2d}\n".as_bytes(),
        b"\x0c\n", b"\x1a\n", "\u{2028}\n".as_bytes(),
    ];
    for _ in 0..n {
        let k = r.range(2, lines.len());
        let from = r.below(lines.len());
        let a = random_seq(&mut r, k, 14);
        let b = if r.chance(1, 3) { random_seq(&mut r, k, 14) } else { mutate(&mut r, &a, k, 3) };
        let text = |s: &[u8], r: &mut Rng| -> Vec<u8> {
            let mut t: Vec<u8> = s.iter().flat_map(|c| lines[(*c as usize + from) % lines.len()].to_vec()).collect();
            if r.chance(1, 3) {
                t.pop();
            }
            if r.chance(1, 12) && t.len() > 2 {
                let at = r.below(t.len());
                t[at] = *r.pick(&[0xff, 0, 0x80, b'\n', b'\r']);
            }
            t
        };
        let (x, y) = (text(&a, &mut r), text(&b, &mut r));
        add(&mut r, x, y);
    }
    // long lines and files around the buffer size
    for n in [8190usize, 8191, 8192, 8193, 16_384, 70_000] {
        let mut x = vec![b'x'; n];
        x.extend(b"\nrest\n");
        let mut y = x.clone();
        y.extend(b"more");
        add(&mut r, x.clone(), y);
        let mut y = x.clone();
        y[n - 1] = b'y';
        if n < 10_000 {
            let z: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
            add(&mut r, z, b"a\n".to_vec());
        }
        add(&mut r, x, y);
    }
    out
}

/// The same as for texts and byte strings in memory, all the way through files.
pub fn file_pair(prop: &str, before: &[u8], after: &[u8], context: u8) -> R {
    let dir = scratch("pair");
    let (bp, ap) = (dir.join("before"), dir.join("after"));
    std::fs::write(&bp, before).unwrap();
    std::fs::write(&ap, after).unwrap();
    let r = file_pair_in(prop, before, after, &bp, &ap, context);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

pub fn file_pair_in(prop: &str, before: &[u8], after: &[u8], bp: &std::path::Path, ap: &std::path::Path, context: u8) -> R {
    use crate::oracle::*;
    use pw_diff_lib::apply_bytes::ApplyClumpsClean;
    use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
    use pw_diff_lib::byte_diff::ByteChangeDiff;
    use pw_diff_lib::text_diff::TextChangeDiff;
    use std::fs::File;
    let texts = (std::str::from_utf8(before), std::str::from_utf8(after));
    let lines = |p: &std::path::Path| Seq::<String>::read(File::open(p).unwrap());
    let bytes = |p: &std::path::Path| Seq::<u8>::read(File::open(p).unwrap());
    if let (Ok(b), Ok(a)) = texts {
        if prop != "C08" {
            let d = TextChangeDiff::new(bp, ap, context).map_err(|e| e.to_string())?;
            let n = serde_json::to_value(&d).unwrap()["clumps"].as_array().map_or(0, |c| c.len());
            match prop {
                "C05" => {
                    let want: Vec<serde_json::Value> = text_clumps(b, a, context).iter().map(clump_json).collect();
                    let got = serde_json::to_value(&d).unwrap()["clumps"].clone();
                    ensure!(got == serde_json::Value::Array(want.clone()), "the patch made from the files has the clumps {got}, those of their texts are {want:?}");
                }
                "C09" => {
                    ensure!(d.is_already_applied(&lines(ap).map_err(|e| e.to_string())?, false), "patch not recognised as applied to its own after file");
                    ensure!(d.is_already_applied(&lines(bp).map_err(|e| e.to_string())?, true), "patch not recognised as applied in reverse to its own before file");
                }
                _ => {
                    let reverse = prop == "C07";
                    let (from, to) = if reverse { (ap, before) } else { (bp, after) };
                    let mut out = vec![];
                    let stats = d.apply_into(&lines(from).map_err(|e| e.to_string())?, &mut out, reverse).map_err(|e| e.to_string())?;
                    ensure!(out == to, "patching the file gives {:?}, not {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(to));
                    ensure!(
                        stats.clean == n && stats.fuzzy + stats.already_applied + stats.already_applied_fuzzy + stats.failed == 0,
                        "{n} clumps but {stats:?}"
                    );
                }
            }
            if prop != "C09" && prop != "C05" {
                return Ok(n > 0);
            }
        }
    } else if prop == "C06" || prop == "C07" {
        return Ok(false);
    }
    if before.len() * after.len() > 1_000_000 {
        return Ok(false);
    }
    let d = ByteChangeDiff::new(bp, ap, context).map_err(|e| e.to_string())?;
    match prop {
        "C05" => {
            let want: Vec<serde_json::Value> = byte_clumps(before, after, context).iter().map(clump_json).collect();
            let got = serde_json::to_value(&d).unwrap()["clumps"].clone();
            ensure!(got == serde_json::Value::Array(want.clone()), "the patch made from the files has the clumps {got}, those of their bytes are {want:?}");
        }
        "C09" => {
            ensure!(d.already_applied(&bytes(ap).map_err(|e| e.to_string())?, false), "patch not recognised as applied to its own after file");
            ensure!(d.already_applied(&bytes(bp).map_err(|e| e.to_string())?, true), "patch not recognised as applied in reverse to its own before file");
        }
        _ => {
            for (from, to, reverse) in [(bp, after, false), (ap, before, true)] {
                let mut out = vec![];
                d.apply_into(&bytes(from).map_err(|e| e.to_string())?, &mut out, reverse).map_err(|e| e.to_string())?;
                ensure!(out == to, "patching the file (reverse: {reverse}) gives {out:?}, not {to:?}");
            }
        }
    }
    Ok(before != after)
}
