//! C17 and C18: the patch command, run as a process in a scratch directory.

use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::gen::*;
use crate::io_cases::scratch;
use crate::oracle::{byte_clumps, text_clumps, R};
use crate::Case;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Change,
    Add,
    Remove,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    NoPatchFile,
    BadPatchFile,
    TargetMissing,
    TargetIsDirectory,
    TargetNotText,
    /// the working directory is gone: no temporary file can be made
    NoTempFile,
    /// writes fail after this many 1 KiB blocks
    WriteFails(u32),
    /// the target lives on another file system: the rename fails
    RenameFails,
    /// for additions: something is already there
    Occupied,
    OccupiedByLink,
    /// a link to nothing is already there
    OccupiedByLooseLink,
    NoParent,
    /// for deletions: the named file is a link to another, or to nothing
    Link,
    LooseLink,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CmdCase {
    pub kind: Kind,
    pub bytes: bool,
    pub reverse: bool,
    pub fault: Fault,
    pub before: Vec<u8>,
    pub after: Vec<u8>,
    pub context: u8,
    /// how the target is named in the patch
    #[serde(default)]
    pub form: Form,
    /// what the target holds, where that is not the side the patch starts from
    #[serde(default)]
    pub found: Option<Vec<u8>>,
    /// how often `-v` is given
    #[serde(default)]
    pub verbose: u8,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Default)]
pub enum Form {
    #[default]
    Absolute,
    Relative,
    /// a name with spaces, quotes and other characters than ASCII
    Odd,
    /// the file has a second name (a hard link) elsewhere
    Linked,
    /// nobody may write to it
    ReadOnly,
}

/// what the library makes of the found content (C12 to C14 judge that)
fn patched(patch: &serde_json::Value, found: &[u8], reverse: bool) -> Option<Vec<u8>> {
    use pw_diff_lib::apply_bytes::ApplyClumpsClean;
    use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
    use pw_diff_lib::diff::Diff;
    use pw_diff_lib::sequence::Seq;
    let mut out = vec![];
    match Diff::from_reader(&mut patch.to_string().as_bytes()).ok()? {
        Diff::TextChange(d) => {
            d.apply_into(&Seq::<String>::from(std::str::from_utf8(found).ok()?), &mut out, reverse).ok()?;
        }
        Diff::ByteChange(d) => {
            d.apply_into(&Seq::<u8>::from(found), &mut out, reverse).ok()?;
        }
        _ => return None,
    }
    Some(out)
}

fn binary() -> PathBuf {
    PathBuf::from(std::env::var("PW_PATCH").expect("PW_PATCH"))
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}

fn snapshot(dir: &Path) -> Vec<(PathBuf, Option<Vec<u8>>)> {
    let mut v = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                let md = std::fs::symlink_metadata(&p).unwrap();
                if md.is_dir() {
                    v.push((p.clone(), None));
                    todo.push(p);
                } else {
                    v.push((p.clone(), std::fs::read(&p).ok()));
                }
            }
        }
    }
    v.sort();
    v
}

pub fn run(c: &CmdCase) -> R {
    let dir = scratch("cmd");
    let other = if c.fault == Fault::RenameFails {
        let d = PathBuf::from("/dev/shm").join(dir.file_name().unwrap());
        std::fs::create_dir_all(&d).unwrap();
        d
    } else {
        dir.clone()
    };
    let same_fs = {
        use std::os::unix::fs::MetadataExt;
        c.fault == Fault::RenameFails
            && std::fs::metadata(&dir).unwrap().dev() == std::fs::metadata(&other).unwrap().dev()
    };
    let r = if same_fs { Ok(false) } else { run_in(c, &dir, &other) };
    let _ = std::fs::remove_dir_all(&dir);
    if other != dir {
        let _ = std::fs::remove_dir_all(&other);
    }
    r
}

fn run_in(c: &CmdCase, dir: &Path, other: &Path) -> R {
    let files = other.join("files");
    std::fs::create_dir_all(&files).unwrap();
    let mut target = files.join(if c.form == Form::Odd { "tar get 'é\" 中" } else { "target" });
    if c.fault == Fault::NoParent {
        target = files.join("missing").join("target");
    }
    let text = |d: &[u8]| String::from_utf8(d.to_vec()).unwrap();
    let lines = |d: &[u8]| -> Vec<String> { text(d).split_inclusive('\n').map(|s| s.to_string()).collect() };
    // the patch
    let named = if c.form == Form::Relative { Path::new("../files").join(target.file_name().unwrap()) } else { target.clone() };
    // a file of the after path need not be there; where it is, it is none of the command's business
    let other_file = files.join("after");
    let after_path = if c.context % 2 == 0 {
        PathBuf::from("other")
    } else {
        std::fs::write(&other_file, if c.reverse { &c.after } else { &c.before }).unwrap();
        other_file
    };
    let patch = match (c.kind, c.bytes) {
        (Kind::Change, false) => {
            let cl = text_clumps(&text(&c.before), &text(&c.after), c.context);
            json!({"TextChange": {"before_path": named, "after_path": after_path,
                "clumps": cl.iter().map(|c| json!({"context_lengths": c.ctx,
                    "before": {"start": c.start.0, "items": c.before},
                    "after": {"start": c.start.1, "items": c.after}})).collect::<Vec<_>>()}})
        }
        (Kind::Change, true) => {
            let cl = byte_clumps(&c.before, &c.after, c.context);
            json!({"ByteChange": {"before_path": named, "after_path": after_path, "compressed": false,
                "clumps": cl.iter().map(|c| json!({"context_lengths": c.ctx,
                    "before": {"start": c.start.0, "items": c.before},
                    "after": {"start": c.start.1, "items": c.after}})).collect::<Vec<_>>()}})
        }
        (Kind::Add, false) => json!({"TextAdd": {"path": named, "lines": lines(&c.after)}}),
        (Kind::Remove, false) => json!({"TextRemove": {"path": named, "lines": lines(&c.after)}}),
        (Kind::Add, true) => json!({"ByteAdd": {"path": named, "compressed": false, "bytes": c.after}}),
        (Kind::Remove, true) => json!({"ByteRemove": {"path": named, "compressed": false, "bytes": c.after}}),
    };
    let patch_path = dir.join("p.pwdiff");
    match c.fault {
        Fault::NoPatchFile => {}
        Fault::BadPatchFile => std::fs::write(&patch_path, b"{\"TextChange\": 3").unwrap(),
        _ => std::fs::write(&patch_path, serde_json::to_vec(&patch).unwrap()).unwrap(),
    }
    // the target
    let creating = (c.kind == Kind::Add) != c.reverse && c.kind != Kind::Change;
    let source: Vec<u8> = if let Some(found) = &c.found {
        found.clone()
    } else if c.kind == Kind::Change {
        if c.reverse { c.after.clone() } else { c.before.clone() }
    } else {
        c.after.clone()
    };
    let result: Vec<u8> = match &c.found {
        Some(found) if c.kind == Kind::Change => match patched(&patch, found, c.reverse) {
            Some(r) => r,
            None => return Ok(false),
        },
        _ => if c.reverse { c.before.clone() } else { c.after.clone() },
    };
    let occupant: &[u8] = c.found.as_deref().unwrap_or(b"precious\n");
    match c.fault {
        Fault::TargetMissing | Fault::NoParent => {}
        Fault::TargetIsDirectory => std::fs::create_dir_all(&target).unwrap(),
        Fault::TargetNotText => std::fs::write(&target, b"a\n\xff\xfe\n").unwrap(),
        Fault::Occupied => std::fs::write(&target, occupant).unwrap(),
        Fault::OccupiedByLink => {
            std::fs::write(files.join("elsewhere"), occupant).unwrap();
            std::os::unix::fs::symlink(files.join("elsewhere"), &target).unwrap();
        }
        Fault::OccupiedByLooseLink => std::os::unix::fs::symlink(files.join("nothing"), &target).unwrap(),
        Fault::Link | Fault::LooseLink => {
            if c.fault == Fault::Link {
                std::fs::write(files.join("elsewhere"), &source).unwrap();
            }
            std::os::unix::fs::symlink("elsewhere", &target).unwrap();
        }
        _ => {
            if !creating {
                std::fs::write(&target, &source).unwrap()
            }
        }
    }
    if target.is_file() {
        match c.form {
            Form::Linked => std::fs::hard_link(&target, files.join("second name")).unwrap(),
            Form::ReadOnly => {
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(&target, std::fs::Permissions::from_mode(0o444)).unwrap()
            }
            _ => {}
        }
    }
    // bystanders
    std::fs::write(files.join("bystander"), b"bystander\n").unwrap();
    let before = snapshot(&files);
    let inode = |p: &Path| std::os::unix::fs::MetadataExt::ino(&std::fs::symlink_metadata(p).unwrap());
    let old = target.is_file().then(|| inode(&target));
    let cwd = dir.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    let mut cmd = Command::new(binary());
    if c.reverse {
        cmd.arg("--reverse");
    }
    for _ in 0..c.verbose {
        cmd.arg("-v");
    }
    cmd.arg(&patch_path).current_dir(&cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let fault = c.fault;
    let gone = std::ffi::CString::new(cwd.to_str().unwrap()).unwrap();
    unsafe {
        cmd.pre_exec(move || {
            extern "C" {
                fn rmdir(p: *const std::ffi::c_char) -> i32;
            }
            match fault {
                Fault::WriteFails(k) => {
                    signal(25, 1); // SIGXFSZ ignored
                    let lim = [k as u64 * 1024; 2];
                    setrlimit(1, &lim); // RLIMIT_FSIZE
                }
                Fault::NoTempFile => {
                    rmdir(gone.as_ptr());
                }
                _ => {}
            }
            Ok(())
        });
    }
    let status = cmd.status().map_err(|e| e.to_string())?;
    let after = snapshot(&files);
    let ok = status.success();
    let show = |v: &Vec<(PathBuf, Option<Vec<u8>>)>| {
        v.iter()
            .map(|(p, d)| format!("{}={:?}", p.file_name().unwrap().to_string_lossy(), d.as_ref().map(|d| d.len())))
            .collect::<Vec<_>>()
            .join(" ")
    };
    // others are never touched
    for (p, d) in &before {
        if *p != target {
            ensure!(after.iter().any(|(q, e)| q == p && e == d), "{p:?} was changed");
        }
    }
    ensure!(
        status.code().is_some() && status.code() != Some(101),
        "the command crashed ({status})"
    );
    let limit_hits = |n: usize| matches!(c.fault, Fault::WriteFails(k) if n > k as usize * 1024);
    let now = after.iter().find(|(p, _)| *p == target).map(|(_, d)| d.clone());
    if c.kind == Kind::Change {
        let should_fail = match c.fault {
            Fault::None | Fault::TargetNotText if c.fault == Fault::None || c.bytes => false,
            Fault::WriteFails(_) => limit_hits(result.len()),
            _ => true,
        };
        // where the temporary file is made is up to the command
        let either_way = matches!(c.fault, Fault::NoTempFile | Fault::RenameFails);
        if should_fail && !(ok && either_way) {
            ensure!(!ok, "{:?}: exit status 0 although the patch could not be applied", c.fault);
            // a temporary file may stay behind
            let kept: Vec<_> = after.iter().filter(|(p, _)| *p == target || before.iter().any(|(q, _)| p == q)).cloned().collect();
            ensure!(
                before == kept,
                "{:?}: the files changed although the patch failed: {} -> {}",
                c.fault,
                show(&before),
                show(&after)
            );
        } else if c.fault == Fault::TargetNotText {
            ensure!(ok, "byte patch refused");
        } else {
            ensure!(ok, "exit status {status} although nothing failed");
            let same = source == result;
            ensure!(now == Some(Some(result)), "the target does not hold the patched content");
            ensure!(same || old != Some(inode(&target)), "the target was written to, not replaced in one step");
        }
    } else if creating {
        let should_fail = match c.fault {
            Fault::None => false,
            Fault::WriteFails(_) => limit_hits(c.after.len()),
            _ => true,
        };
        // the command may make what is missing
        if should_fail && !(ok && c.fault == Fault::NoParent) {
            ensure!(!ok, "{:?}: exit status 0 although the file was not created", c.fault);
            if !matches!(c.fault, Fault::WriteFails(_)) {
                ensure!(before == after, "{:?}: files changed: {} -> {}", c.fault, show(&before), show(&after));
            }
        } else {
            ensure!(ok, "exit status {status} although nothing failed");
            ensure!(now == Some(Some(c.after.clone())), "the created file does not hold the recorded content");
        }
    } else {
        let should_fail = !matches!(c.fault, Fault::None | Fault::WriteFails(_) | Fault::NoTempFile | Fault::Link | Fault::LooseLink);
        if should_fail {
            ensure!(!ok, "{:?}: exit status 0 although the file was not deleted", c.fault);
            ensure!(before == after, "{:?}: files changed: {} -> {}", c.fault, show(&before), show(&after));
        } else {
            ensure!(ok, "exit status {status} although nothing failed");
            ensure!(now.is_none(), "the file is still there");
            ensure!(after.len() + 1 == before.len(), "something else changed");
        }
    }
    Ok(true)
}

fn content(r: &mut Rng, n: usize, salt: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while v.len() < n {
        v.extend(format!("line {} {}\n", salt, i + r.below(2)).into_bytes());
        i += 1;
    }
    v
}

pub fn change_cases(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 17);
    let mut out = vec![];
    let faults = [
        Fault::None,
        Fault::NoPatchFile,
        Fault::BadPatchFile,
        Fault::TargetMissing,
        Fault::TargetIsDirectory,
        Fault::TargetNotText,
        Fault::NoTempFile,
        Fault::WriteFails(0),
        Fault::WriteFails(1),
        Fault::WriteFails(2),
        Fault::WriteFails(3),
        Fault::WriteFails(4),
        Fault::WriteFails(8),
        Fault::RenameFails,
    ];
    let rounds = if tier == "thorough" { 40 } else { 4 };
    for round in 0..rounds {
        for fault in faults {
            for bytes in [false, true] {
                for reverse in [false, true] {
                    let n = [4000, 2500, 10, 0][round % 4];
                    let before = content(&mut r, n, 1);
                    let mut after = before.clone();
                    if !after.is_empty() {
                        let at = r.below(after.len());
                        let at = after[..at].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
                        let ins = content(&mut r, 30, 2);
                        for (i, c) in ins.into_iter().enumerate() {
                            after.insert(at + i, c);
                        }
                    } else {
                        after = content(&mut r, 50, 3);
                    }
                    if matches!(fault, Fault::TargetNotText) && bytes && reverse {
                        continue;
                    }
                    out.push(Case::Cmd(CmdCase { kind: Kind::Change, bytes, reverse, fault, before, after, context: *r.pick(&[0u8, 2, 3]), form: Form::Absolute, found: None, verbose: (out.len() % 12).saturating_sub(6) as u8 }));
                }
            }
        }
    }
    // other names, other sizes, texts that are not quite what the patch was made from
    let n = if tier == "thorough" { 600 } else { 120 };
    for i in 0..n {
        let bytes = i % 4 == 1;
        let reverse = r.chance(1, 2);
        let len = if bytes { r.below(300) } else { *r.pick(&[0usize, 30, 200, 1000, 8000, 8192, 9000, 20_000, 70_000]) };
        let before = content(&mut r, len, 1);
        let mut after = before.clone();
        for _ in 0..r.range(1, 4) {
            edit(&mut r, &mut after);
        }
        let found = if r.chance(1, 2) {
            None
        } else {
            let mut f = if reverse { after.clone() } else { before.clone() };
            for _ in 0..r.range(1, 6) {
                edit(&mut r, &mut f);
            }
            Some(f)
        };
        let form = *r.pick(&[Form::Absolute, Form::Relative, Form::Odd, Form::Linked, Form::ReadOnly]);
        let fault = *r.pick(&[
            Fault::None, Fault::None, Fault::None, Fault::WriteFails(7), Fault::WriteFails(8), Fault::WriteFails(19), Fault::WriteFails(64),
        ]);
        let context = *r.pick(&[0u8, 1, 2, 3, 255]);
        out.push(Case::Cmd(CmdCase { kind: Kind::Change, bytes, reverse, fault, before, after, context, form, found, verbose: (out.len() % 12).saturating_sub(6) as u8 }));
    }
    out
}

/// one line put in, taken out or changed
fn edit(r: &mut Rng, v: &mut Vec<u8>) {
    let mut lines: Vec<Vec<u8>> = v.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    let at = r.below(lines.len() + 1);
    if at < lines.len() && r.chance(1, 2) {
        if r.chance(1, 2) {
            lines.remove(at);
        } else {
            lines[at] = format!("changed {}\n", r.below(50)).into_bytes();
        }
    } else {
        lines.insert(at, format!("put in {}\n", r.below(50)).into_bytes());
    }
    *v = lines.concat();
}

pub fn add_remove_cases(tier: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 18);
    let mut out = vec![];
    let rounds = if tier == "thorough" { 40 } else { 4 };
    for round in 0..rounds {
        for kind in [Kind::Add, Kind::Remove] {
            for bytes in [false, true] {
                for reverse in [false, true] {
                    let creating = (kind == Kind::Add) != reverse;
                    let faults: &[Fault] = if creating {
                        &[Fault::None, Fault::NoPatchFile, Fault::BadPatchFile, Fault::TargetIsDirectory, Fault::WriteFails(0),
                          Fault::WriteFails(1), Fault::WriteFails(2), Fault::Occupied, Fault::OccupiedByLink, Fault::OccupiedByLooseLink, Fault::NoParent]
                    } else {
                        &[Fault::None, Fault::NoPatchFile, Fault::BadPatchFile, Fault::TargetIsDirectory, Fault::TargetMissing, Fault::NoParent, Fault::Link, Fault::LooseLink]
                    };
                    for fault in faults {
                        let n = [3000, 10, 0, 1500][round % 4];
                        let after = content(&mut r, n, 7);
                        // what is already there: something else, nothing, the same, a part of it
                        let found = match (round + usize::from(bytes)) % 4 {
                            _ if !matches!(fault, Fault::Occupied | Fault::OccupiedByLink) => None,
                            0 => None,
                            1 => Some(vec![]),
                            2 => Some(after.clone()),
                            _ => Some(after[..after.len() / 2].to_vec()),
                        };
                        out.push(Case::Cmd(CmdCase { kind, bytes, reverse, fault: *fault, before: vec![], after, context: 0, form: Form::Absolute, found, verbose: (out.len() % 12).saturating_sub(6) as u8 }));
                    }
                }
            }
        }
    }
    // other names, other sizes, other contents
    let n = if tier == "thorough" { 600 } else { 120 };
    let odd = crate::io_cases::contents(&mut r, 100);
    for _ in 0..n {
        let kind = *r.pick(&[Kind::Add, Kind::Remove]);
        let reverse = r.chance(1, 2);
        let creating = (kind == Kind::Add) != reverse;
        let after = if r.chance(1, 3) {
            let len = *r.pick(&[8191usize, 8192, 8193, 20_000, 70_000]);
            content(&mut r, len, 9)
        } else {
            r.pick(&odd).clone()
        };
        let bytes = std::str::from_utf8(&after).is_err() || r.chance(1, 4);
        let form = *r.pick(&[Form::Absolute, Form::Relative, Form::Odd, Form::Linked, Form::ReadOnly]);
        let fault = if creating {
            *r.pick(&[Fault::None, Fault::None, Fault::Occupied, Fault::WriteFails(0), Fault::WriteFails(8), Fault::WriteFails(64)])
        } else {
            *r.pick(&[Fault::None, Fault::None, Fault::TargetMissing, Fault::TargetIsDirectory])
        };
        // what is deleted need not hold what the patch says
        let found = if fault == Fault::Occupied && r.chance(1, 2) {
            Some(r.pick(&[vec![], after.clone(), b"\n".to_vec()]).clone())
        } else if creating || r.chance(2, 3) { None } else { Some(b"other\n".to_vec()) };
        out.push(Case::Cmd(CmdCase { kind, bytes, reverse, fault, before: vec![], after, context: 0, form, found, verbose: (out.len() % 12).saturating_sub(6) as u8 }));
    }
    out
}
