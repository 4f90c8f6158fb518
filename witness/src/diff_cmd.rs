//! C24: the diff command, run as a process in a scratch directory.

use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use pw_diff_lib::diff::Diff;
use serde::{Deserialize, Serialize};

use crate::gen::*;
use crate::io_cases::scratch;
use crate::oracle::R;
use crate::Case;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Out {
    /// standard output takes everything
    Whole,
    /// it fails this many bytes before the end of the output
    Short(usize),
    /// it fails after this many bytes
    Stops(usize),
    /// it fails at once
    Full,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Names {
    /// by their whole paths
    Whole,
    /// not text
    Odd,
    /// relative to the working directory
    Relative,
    /// the same, with spaces and a leading '-'
    Strange,
    /// the same file twice
    Same,
    /// by symbolic links
    Links,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum File {
    Missing,
    Directory,
    Holds(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DiffCase {
    pub before: File,
    pub after: File,
    pub context: Option<u8>,
    pub out: Out,
    /// how the files are named
    pub names: Names,
    /// how often `-v` is given
    #[serde(default)]
    pub verbose: u8,
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}

fn command(b: &Path, a: &Path, c: &DiffCase, dir: &Path, out: std::fs::File, limit: Option<u64>) -> Result<std::process::ExitStatus, String> {
    let mut cmd = Command::new(std::env::var("PW_DIFF").expect("PW_DIFF"));
    for _ in 0..c.verbose {
        cmd.arg("-v");
    }
    if let Some(n) = c.context {
        cmd.arg("--context").arg(n.to_string());
    }
    cmd.arg(b).arg(a).current_dir(dir).stdin(Stdio::null()).stdout(out).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            if let Some(k) = limit {
                signal(25, 1); // SIGXFSZ ignored
                setrlimit(1, &[k; 2]); // RLIMIT_FSIZE
            }
            Ok(())
        });
    }
    cmd.status().map_err(|e| e.to_string())
}

pub fn run(c: &DiffCase) -> R {
    let dir = scratch("diff");
    let r = run_in(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn put(p: &Path, f: &File) {
    match f {
        File::Missing => {}
        File::Directory => std::fs::create_dir(p).unwrap(),
        File::Holds(d) => std::fs::write(p, d).unwrap(),
    }
}

fn kept(p: &Path, f: &File) -> bool {
    match f {
        File::Missing => !p.exists(),
        File::Directory => p.is_dir(),
        File::Holds(d) => std::fs::read(p).ok().as_ref() == Some(d),
    }
}

fn run_in(c: &DiffCase, dir: &Path) -> R {
    let odd: &[u8] = if c.names == Names::Odd { b"\xff" } else { b"" };
    let name = |n: &str| -> PathBuf { dir.join(std::ffi::OsStr::from_bytes(&[n.as_bytes(), odd].concat())) };
    let (b, a) = match c.names {
        Names::Strange => (name("the before file"), name("-")),
        Names::Same => (name("before"), name("before")),
        _ => (name("before"), name("after")),
    };
    put(&b, &c.before);
    if c.names != Names::Same {
        put(&a, &c.after);
    }
    let (b0, a0) = (b.clone(), a.clone());
    let (b, a) = if c.names == Names::Links { (name("b link"), name("a link")) } else { (b, a) };
    if c.names == Names::Links {
        std::os::unix::fs::symlink("before", &b).unwrap();
        std::os::unix::fs::symlink("after", &a).unwrap();
    }
    // what is to be written: the library's diff of these files, if that is one
    let is = |f: &File| -> (bool, Option<Vec<u8>>) {
        match f {
            File::Missing => (false, None),
            File::Directory => (true, None),
            File::Holds(d) => (true, Some(d.clone())),
        }
    };
    let (x, y) = (is(&c.before), is(if c.names == Names::Same { &c.before } else { &c.after }));
    let made = Diff::new(&b, &a, c.context.unwrap_or(2));
    if (x.0 && x.1.is_none()) || (y.0 && y.1.is_none()) {
        ensure!(made.is_err(), "a diff of something that is no file");
    } else {
        crate::io_cases::judge_kind(&made, x.1.as_deref(), y.1.as_deref(), &b, &a, 2)?;
        if let (Some(x), Some(y), false) = (&x.1, &y.1, c.names == Names::Odd || x.1.iter().chain(&y.1).any(|d| d.len() > 1000)) {
            crate::io_cases::file_pair_in("C05", x, y, &b, &a, c.context.unwrap_or(2))?;
        }
    }
    let mut expected = vec![];
    let possible = match made {
        Ok(d) => d.to_writer(&mut expected).is_ok(),
        Err(_) => false,
    };
    let given = |p: &PathBuf| -> PathBuf {
        match c.names {
            Names::Relative | Names::Strange => p.strip_prefix(dir).unwrap().to_path_buf(),
            _ => p.clone(),
        }
    };
    if matches!(c.names, Names::Relative | Names::Strange) {
        let whole = serde_json::to_string(&format!("{}/", dir.display())).unwrap();
        expected = String::from_utf8_lossy(&expected).replace(&whole[1..whole.len() - 1], "").into_bytes();
    }
    let out_path = dir.join("out");
    let (out, limit) = match c.out {
        Out::Full => (std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?, None),
        o => (
            std::fs::File::create(&out_path).unwrap(),
            match o {
                Out::Short(n) => Some(expected.len().saturating_sub(n) as u64),
                Out::Stops(n) => Some(n as u64),
                _ => None,
            },
        ),
    };
    let room = match c.out {
        Out::Whole => true,
        Out::Full => expected.is_empty(),
        _ => limit.unwrap() >= expected.len() as u64,
    };
    let status = command(&given(&b), &given(&a), c, dir, out, limit)?;
    ensure!(status.code().is_some() && status.code() != Some(101), "the command crashed ({status})");
    ensure!(kept(&b0, &c.before) && (c.names == Names::Same || kept(&a0, &c.after)), "an input file was changed");
    let extra = std::fs::read_dir(dir).unwrap().flatten().map(|e| e.path()).find(|p| ![&b, &a, &b0, &a0, &out_path].contains(&p));
    ensure!(extra.is_none(), "the command left {extra:?} behind");
    if possible && room {
        ensure!(status.success(), "exit status {status} although the diff could be made and written");
        ensure!(std::fs::read(&out_path).unwrap() == expected, "the output is not the diff of the two files");
        Ok(!expected.is_empty())
    } else if possible {
        ensure!(
            !status.success(),
            "exit status 0 although the output could not be written whole ({:?} of {} bytes)",
            limit,
            expected.len()
        );
        Ok(true)
    } else {
        ensure!(!status.success(), "exit status 0 although no diff could be made or written");
        Ok(true)
    }
}

pub fn cases(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 24);
    let mut out = vec![];
    let rounds = if tier == "thorough" { 60 } else { 6 };
    let mut add = |before: &File, after: &File, context, o, names| {
        let verbose = (out.len() % 12).saturating_sub(6) as u8;
        out.push(Case::Diff(DiffCase { before: before.clone(), after: after.clone(), context, out: o, names, verbose }))
    };
    for round in 0..rounds {
        let n = [6, 0, 40, 200, 2, 90][round % 6];
        let mut b: Vec<u8> = vec![];
        for i in 0..n {
            b.extend(format!("line {} {}\n", r.below(3), i).into_bytes());
        }
        let mut a = b.clone();
        for _ in 0..1 + r.below(3) {
            let at = r.below(a.len() + 1);
            a.insert(at, *r.pick(&[b'x', b'\n', b'y']));
        }
        let mut not_text = a.clone();
        not_text.push(0xff);
        // little differences: at the end, in the order
        let mut turned = b.clone();
        turned.reverse();
        let mut swapped = b.clone();
        if b.len() > 20 {
            swapped.swap(5, 7 + b.len() / 2);
        }
        for other in [[&b[..], b"\n"].concat(), b[..b.len().saturating_sub(1)].to_vec(), turned, swapped] {
            for mark in [&b""[..], b"\xff"] {
                if b.len() > 500 && !mark.is_empty() {
                    continue;
                }
                let f = |d: &[u8]| File::Holds([mark, d].concat());
                add(&f(&b), &f(&other), [None, Some(0), Some(3)][r.below(3)], Out::Whole, Names::Whole);
                add(&f(&other), &f(&b), [None, Some(1), Some(255)][r.below(3)], Out::Whole, Names::Whole);
            }
        }
        let files = [File::Missing, File::Directory, File::Holds(b.clone()), File::Holds(a.clone()), File::Holds(not_text)];
        for (i, f) in files.iter().enumerate() {
            for (j, g) in files.iter().enumerate() {
                let context = match r.below(9) {
                    0 => None,
                    7 | 8 => Some(r.below(256) as u8),
                    n => Some([0, 1, 2, 3, 10, 255][n - 1]),
                };
                for names in [Names::Relative, Names::Strange, Names::Links, Names::Same] {
                    if round < 2 || r.chance(1, 4) {
                        add(f, g, context, Out::Whole, names);
                    }
                }
                add(f, g, context, Out::Whole, Names::Whole);
                if i >= 2 && j >= 2 || (i == 0) != (j == 0) {
                    for o in [Out::Short(0), Out::Short(1), Out::Short(2), Out::Short(3 + r.below(60)), Out::Stops(0), Out::Stops(1 + r.below(100)), Out::Full] {
                        add(f, g, context, o, Names::Whole);
                    }
                    if round % 3 == 0 {
                        add(f, g, context, Out::Whole, Names::Odd);
                    }
                }
            }
        }
    }
    // outputs far beyond any buffer
    for (i, n) in [300usize, 800, 4000].into_iter().enumerate() {
        let big: Vec<u8> = (0..n).flat_map(|j| format!("line number {j}\n").into_bytes()).collect();
        let mut odd = big.clone();
        odd.push(0xff);
        let small = File::Holds(b"line number 3\nx\n".to_vec());
        let one_side = File::Holds(if i == 1 { odd } else { big });
        for o in [Out::Whole, Out::Short(0), Out::Short(1), Out::Stops(1024), Out::Stops(8192), Out::Full] {
            add(&one_side, &File::Missing, None, o, Names::Whole);
            add(&File::Missing, &one_side, Some(3), o, Names::Whole);
            if i == 0 {
                add(&small, &one_side, Some(255), o, Names::Whole);
            }
        }
    }
    out
}
