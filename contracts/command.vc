@module command pw_patch/src/main.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::apply_bytes::{models, some_replaced, ApplyClumpsClean};
use crate::apply_text::{all_text_ok, outcome, texts, ApplyClumpsFuzzy, Ev, Statistics};
use crate::byte_diff::{ByteChangeDiff, PathAndBytes};
use crate::diff::Diff;
use crate::sequence::{lines_ok, Seq};
use crate::text_diff::{PathAndLines, TextChangeDiff};
use std::fs::File;
use std::io;
use std::path::{Path, PathBuf};
broadcast use {crate::prelude::ax_path_arg, crate::prelude::ax_path_buf_arg};
@world Cli::parse -> vx_parse
@world Diff::from_reader -> vx_from_reader
@world File::open -> vx_open
@world File::create -> vx_create
@world File::create_new -> vx_create_new
@world fs::rename -> vx_rename
@world fs::remove_file -> vx_remove_file
@world TempFile::in_dir -> vx_in_dir
@world process::exit -> vx_exit
@dropstmt stderrlog
@top
/// the files: which there are, and what is in them (a file is told from its name, so that replacing
/// a file and writing into it are different things)
pub ghost struct Files {
    pub names: Map<VSeq<u8>, int>,
    pub content: Map<int, VSeq<u8>>,
    /// the files that were made or opened for writing by this run
    pub ours: Set<int>,
}

/// what the command was asked to do
pub ghost struct Job {
    pub diff: Diff,
    pub reverse: bool,
}

/// the outside of the command
#[verifier::external_body]
pub tracked struct VxWorld {}

impl VxWorld {
    pub uninterp spec fn files(&self) -> Files;

    /// the files when the command was started
    pub uninterp spec fn start(&self) -> Files;

    pub uninterp spec fn reverse(&self) -> bool;

    pub uninterp spec fn diff(&self) -> Option<Diff>;

    pub open spec fn same_job(&self, w: &VxWorld) -> bool {
        self.start() == w.start() && self.reverse() == w.reverse() && self.diff() == w.diff()
    }

    pub open spec fn same(&self, w: &VxWorld) -> bool {
        self.same_job(w) && self.files() == w.files()
    }

    /// the file of this name is the one that was there at the start, with the content it had
    pub open spec fn kept(&self, n: VSeq<u8>) -> bool {
        &&& self.files().names.contains_key(n) && self.start().names.contains_key(n)
        &&& self.files().names[n] == self.start().names[n]
        &&& self.files().content[self.files().names[n]] == self.start().content[self.start().names[n]]
    }

    pub open spec fn others_kept(&self, t: VSeq<u8>) -> bool {
        forall|n: VSeq<u8>| n != t && #[trigger] self.start().names.contains_key(n) ==> self.kept(n)
    }

    /// a file of this name may be given this content in one step: it is the result of the patch
    pub open spec fn may_replace(&self, t: VSeq<u8>, c: VSeq<u8>) -> bool {
        match self.diff() {
            Some(Diff::TextChange(d)) => t == name_of_buf(d.before_path) && result_of_text(d, before(self.start(), t), self.reverse(), c),
            Some(Diff::ByteChange(d)) => t == name_of_buf(d.before_path) && result_of_bytes(d, before(self.start(), t), self.reverse(), c),
            _ => false,
        }
    }

    pub open spec fn may_create(&self, t: VSeq<u8>) -> bool {
        match self.diff() {
            Some(d) => creates(d, self.reverse()) && t == named(d),
            None => false,
        }
    }

    pub open spec fn may_remove(&self, t: VSeq<u8>) -> bool {
        match self.diff() {
            Some(d) => removes(d, self.reverse()) && t == named(d),
            None => false,
        }
    }

    /// the diff is an addition or a removal (C18); otherwise it is a change, or there is none (C17)
    pub open spec fn whole(&self) -> bool {
        match self.diff() {
            Some(d) => creates(d, self.reverse()) || removes(d, self.reverse()),
            None => false,
        }
    }

    /// C17: how the command may leave the files when it reports success
    pub open spec fn changed(&self) -> bool {
        match self.diff() {
            None => false,
            Some(d) => {
                let t = named(d);
                &&& self.others_kept(t)
                &&& self.start().names.contains_key(t)
                &&& self.files().names.contains_key(t)
                &&& !self.start().content.contains_key(self.files().names[t])
                &&& self.may_replace(t, self.files().content[self.files().names[t]])
            },
        }
    }

    /// C18: the same for additions and removals
    pub open spec fn made(&self) -> bool {
        match self.diff() {
            None => false,
            Some(d) => {
                let t = named(d);
                &&& self.others_kept(t)
                &&& creates(d, self.reverse()) ==> {
                    &&& !self.start().names.contains_key(t)
                    &&& self.files().names.contains_key(t)
                    &&& self.files().content[self.files().names[t]] == recorded_content(d)
                }
                &&& removes(d, self.reverse()) ==> {
                    &&& self.start().names.contains_key(t)
                    &&& self.files().names == self.start().names.remove(t)
                }
            },
        }
    }

    pub open spec fn all_kept(&self) -> bool {
        forall|n: VSeq<u8>| #[trigger] self.start().names.contains_key(n) ==> self.kept(n)
    }

    /// C18: nothing is left behind by a creation that is refused
    pub open spec fn refused(&self) -> bool {
        match self.diff() {
            Some(d) => creates(d, self.reverse()) && self.start().names.contains_key(named(d)) ==> self.files().names == self.start().names,
            None => true,
        }
    }
}

/// the content a file had
pub open spec fn before(f: Files, n: VSeq<u8>) -> VSeq<u8> {
    f.content[f.names[n]]
}

/// the file a diff is about
pub open spec fn named(d: Diff) -> VSeq<u8> {
    match d {
        Diff::TextChange(d) => name_of_buf(d.before_path),
        Diff::ByteChange(d) => name_of_buf(d.before_path),
        Diff::TextAdd(p) => name_of_buf(p.path),
        Diff::TextRemove(p) => name_of_buf(p.path),
        Diff::ByteAdd(p) => name_of_buf(p.path),
        Diff::ByteRemove(p) => name_of_buf(p.path),
    }
}

pub open spec fn creates(d: Diff, reverse: bool) -> bool {
    match d {
        Diff::TextAdd(_) | Diff::ByteAdd(_) => !reverse,
        Diff::TextRemove(_) | Diff::ByteRemove(_) => reverse,
        _ => false,
    }
}

pub open spec fn removes(d: Diff, reverse: bool) -> bool {
    match d {
        Diff::TextAdd(_) | Diff::ByteAdd(_) => reverse,
        Diff::TextRemove(_) | Diff::ByteRemove(_) => !reverse,
        _ => false,
    }
}

pub open spec fn recorded_content(d: Diff) -> VSeq<u8> {
    match d {
        Diff::TextAdd(p) => p.content(),
        Diff::TextRemove(p) => p.content(),
        Diff::ByteAdd(p) => p.content(),
        Diff::ByteRemove(p) => p.content(),
        _ => VSeq::empty(),
    }
}

/// c is all of what patching the text b can give (C12, C14)
pub open spec fn result_of_text(d: TextChangeDiff, b: VSeq<u8>, reverse: bool, c: VSeq<u8>) -> bool {
    exists|x: VSeq<String>, s: Statistics, log: VSeq<Ev>| {
        &&& cat(x) == b && lines_ok(x)
        &&& #[trigger] outcome(texts(d.clumps@), x, reverse, c, s, log)
    }
}

/// c is all of what patching the bytes b can give (C13)
pub open spec fn result_of_bytes(d: ByteChangeDiff, b: VSeq<u8>, reverse: bool, c: VSeq<u8>) -> bool {
    some_replaced(models(d.clumps@), b, reverse, c)
}

/// what a diff read from a file is assumed to be: C12's and C13's preconditions
pub open spec fn diff_ok(d: Diff) -> bool {
    match d {
        Diff::TextChange(d) => d.clumps@.len() < i32::MAX && all_text_ok(texts(d.clumps@)),
        Diff::ByteChange(d) => d.clumps@.len() < i32::MAX,
        _ => true,
    }
}

/// ---------- the calls of main on files and the process ----------
#[verifier::external_body]
pub fn vx_parse(Tracked(w): Tracked<&mut VxWorld>) -> (r: Cli)
    ensures
        final(w).start() == old(w).start(),
        final(w).files() == old(w).files(),
        final(w).diff() == old(w).diff(),
        final(w).reverse() == r.reverse,
{
    unimplemented!()
}

#[verifier::external_body]
pub struct VxJsonError {}

#[verifier::external_body]
pub fn vx_from_reader(reader: &mut File, Tracked(w): Tracked<&mut VxWorld>) -> (r: Result<Diff, VxJsonError>)
    ensures
        (*final(reader)).sink() == (*old(reader)).sink(),
        final(w).start() == old(w).start(),
        final(w).files() == old(w).files(),
        final(w).reverse() == old(w).reverse(),
        match r {
            Ok(d) => diff_ok(d) && final(w).diff() == Some(d),
            Err(_) => final(w).diff() == old(w).diff(),
        },
{
    unimplemented!()
}

#[verifier::external_body]
#[verifier::allow(undeclared_external_trait)]
pub fn vx_open<P: AsRef<Path>>(p: P, Tracked(w): Tracked<&mut VxWorld>) -> (r: io::Result<File>)
    ensures
        final(w).same(old(w)),
        match r {
            Ok(f) => {
                &&& f.sink() < 0
                &&& old(w).files().names.contains_key(name_of_arg(p))
                &&& f.rest() == before(old(w).files(), name_of_arg(p))
            },
            Err(_) => true,
        },
{
    unimplemented!()
}

/// truncates a file that is there, which must not be one of those there at the start
#[verifier::external_body]
#[verifier::allow(undeclared_external_trait)]
pub fn vx_create<P: AsRef<Path>>(p: P, Tracked(w): Tracked<&mut VxWorld>) -> (r: io::Result<File>)
    requires
        !old(w).whole() ==> !old(w).start().names.contains_key(name_of_arg(p)), //@ C17
        old(w).whole() ==> !old(w).start().names.contains_key(name_of_arg(p)), //@ C18
    ensures
        final(w).same_job(old(w)),
        match r {
            Ok(f) => {
                let n = name_of_arg(p);
                let o = old(w).files();
                let i = f.sink();
                &&& f.written() == VSeq::<u8>::empty()
                &&& i >= 0
                &&& if o.names.contains_key(n) { i == o.names[n] } else { !o.content.contains_key(i) }
                &&& final(w).files() == (Files { names: o.names.insert(n, i), content: o.content.insert(i, VSeq::empty()), ours: o.ours.insert(i) })
            },
            Err(_) => final(w).files() == old(w).files(),
        },
{
    unimplemented!()
}

#[verifier::external_body]
#[verifier::allow(undeclared_external_trait)]
pub fn vx_create_new<P: AsRef<Path>>(p: P, Tracked(w): Tracked<&mut VxWorld>) -> (r: io::Result<File>)
    requires
        !old(w).whole() ==> !old(w).start().names.contains_key(name_of_arg(p)), //@ C17
        old(w).whole() ==> old(w).may_create(name_of_arg(p)), //@ C18
    ensures
        final(w).same_job(old(w)),
        match r {
            Ok(f) => {
                let n = name_of_arg(p);
                let o = old(w).files();
                let i = f.sink();
                &&& f.written() == VSeq::<u8>::empty()
                &&& i >= 0
                &&& !o.names.contains_key(n) && !o.content.contains_key(i)
                &&& final(w).files() == (Files { names: o.names.insert(n, i), content: o.content.insert(i, VSeq::empty()), ours: o.ours.insert(i) })
            },
            Err(_) => final(w).files() == old(w).files(),
        },
{
    unimplemented!()
}

/// the content of a file that is written is what went through its handle
pub axiom fn vx_sync<F: io::Write>(tracked w: &mut VxWorld, f: &F)
    ensures
        final(w).same_job(old(w)),
        ({
            let o = old(w).files();
            if o.ours.contains(f.sink()) {
                final(w).files() == (Files { names: o.names, content: o.content.insert(f.sink(), f.written()), ours: o.ours })
            } else {
                final(w).files() == o
            }
        }),
;

#[verifier::external_body]
#[verifier::allow(undeclared_external_trait)]
pub fn vx_rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q, Tracked(w): Tracked<&mut VxWorld>) -> (r: io::Result<()>)
    requires
        !old(w).whole() ==> old(w).may_replace(name_of_arg(to), before(old(w).files(), name_of_arg(from))), //@ C17
        !old(w).whole(), //@ C18
    ensures
        final(w).same_job(old(w)),
        match r {
            Ok(_) => {
                let o = old(w).files();
                let (f, t) = (name_of_arg(from), name_of_arg(to));
                &&& o.names.contains_key(f)
                &&& final(w).files() == (Files { names: o.names.remove(f).insert(t, o.names[f]), content: o.content, ours: o.ours })
            },
            Err(_) => final(w).files() == old(w).files(),
        },
{
    unimplemented!()
}

#[verifier::external_body]
#[verifier::allow(undeclared_external_trait)]
pub fn vx_remove_file<P: AsRef<Path>>(p: P, Tracked(w): Tracked<&mut VxWorld>) -> (r: io::Result<()>)
    requires
        !old(w).whole() ==> !old(w).start().names.contains_key(name_of_arg(p)), //@ C17
        old(w).whole() ==> old(w).may_remove(name_of_arg(p)), //@ C18
    ensures
        final(w).same_job(old(w)),
        match r {
            Ok(_) => {
                let o = old(w).files();
                &&& o.names.contains_key(name_of_arg(p))
                &&& final(w).files() == (Files { names: o.names.remove(name_of_arg(p)), content: o.content, ours: o.ours })
            },
            Err(_) => final(w).files() == old(w).files(),
        },
{
    unimplemented!()
}

#[verifier::external_body]
pub struct VxTempFile {}

impl VxTempFile {
    pub uninterp spec fn name(&self) -> VSeq<u8>;

    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path)
        ensures
            name_of(r) == self.name(),
    {
        unimplemented!()
    }
}

/// makes a new empty file under a name not in use
#[verifier::external_body]
pub fn vx_in_dir(dir: &str, Tracked(w): Tracked<&mut VxWorld>) -> (r: io::Result<VxTempFile>)
    ensures
        final(w).same_job(old(w)),
        match r {
            Ok(t) => {
                let o = old(w).files();
                let i = final(w).files().names[t.name()];
                &&& !o.names.contains_key(t.name()) && !o.content.contains_key(i) && i >= 0
                &&& final(w).files() == (Files { names: o.names.insert(t.name(), i), content: o.content.insert(i, VSeq::empty()), ours: o.ours })
            },
            Err(_) => final(w).files() == old(w).files(),
        },
{
    unimplemented!()
}

/// the exit status tells success from failure
#[verifier::external_body]
pub fn vx_exit(code: i32, Tracked(w): Tracked<&mut VxWorld>) -> !
    requires
        code == 0 && !old(w).whole() ==> old(w).changed(), //@ C17
        code == 0 && old(w).whole() ==> old(w).made(), //@ C18
        code != 0 && !old(w).whole() ==> old(w).all_kept(), //@ C17
        code != 0 && old(w).whole() ==> old(w).all_kept() && old(w).refused(), //@ C18
{
    unimplemented!()
}

@fn main
@params Tracked(vx_w): Tracked<&mut VxWorld>
    requires
        old(vx_w).files() == old(vx_w).start(),
        old(vx_w).diff() is None,
        old(vx_w).files().ours == Set::<int>::empty(),
        forall|n: VSeq<u8>| #[trigger] old(vx_w).start().names.contains_key(n) ==> old(vx_w).start().content.contains_key(old(vx_w).start().names[n]),
    ensures
        !final(vx_w).whole() ==> final(vx_w).changed(), //@ C17
        final(vx_w).whole() ==> final(vx_w).made(), //@ C18
