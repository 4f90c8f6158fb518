@module diff_command pw_diff/src/main.rs
@when derived
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::diff::{no_diff, Diff};
use crate::serde_model::{json_of, json_written, plain, Valued};
use std::io::{self, Write};
use std::path::{Path, PathBuf};
broadcast use {crate::prelude::ax_path_arg, crate::prelude::ax_path_buf_arg, crate::serde_model::lemma_all_of_it};
@world Cli::parse -> vx_parse
@world io::stdout -> vx_stdout
@world process::exit -> vx_exit
@dropstmt stderrlog
@top
/// the outside of the command: what it was asked to do, and what of its output has arrived
#[verifier::external_body]
pub tracked struct VxWorld {}

impl VxWorld {
    pub uninterp spec fn before(&self) -> VSeq<u8>;

    pub uninterp spec fn after(&self) -> VSeq<u8>;

    pub uninterp spec fn context(&self) -> u8;

    /// standard output
    pub uninterp spec fn stdout(&self) -> int;

    /// what was written to standard output, and what of it has arrived
    pub uninterp spec fn sent(&self) -> VSeq<u8>;

    pub uninterp spec fn out(&self) -> VSeq<u8>;

    pub open spec fn same_job(&self, w: &VxWorld) -> bool {
        self.before() == w.before() && self.after() == w.after() && self.context() == w.context() && self.stdout() == w.stdout()
    }

    pub open spec fn same(&self, w: &VxWorld) -> bool {
        self.same_job(w) && self.sent() == w.sent() && self.out() == w.out()
    }

    /// C24: what has arrived is the diff that was asked for, all of it
    pub open spec fn done(&self) -> bool {
        exists|d: Diff| #[trigger] d.describes(self.before(), self.after(), self.context() as int) && json_of(self.out(), d.val())
    }

    /// C24: what excuses a failure
    pub open spec fn impossible(&self) -> bool {
        ||| no_diff(self.before(), self.after())
        ||| sink_faulty(self.stdout())
        ||| exists|d: Diff| #[trigger] d.describes(self.before(), self.after(), self.context() as int) && !plain(d.val())
    }
}

#[verifier::external_body]
pub fn vx_parse(Tracked(w): Tracked<&mut VxWorld>) -> (r: Cli)
    ensures
        final(w).same(old(w)),
        name_of_buf(r.before_file_path) == old(w).before(),
        name_of_buf(r.after_file_path) == old(w).after(),
        r.context == old(w).context(),
{
    unimplemented!()
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExStdout(io::Stdout);

/// a handle of the one standard output
#[verifier::external_body]
pub fn vx_stdout(Tracked(w): Tracked<&mut VxWorld>) -> (r: io::Stdout)
    ensures
        final(w).same(old(w)),
        r.sink() == old(w).stdout(),
        r.written() == old(w).sent(),
        r.delivered() == old(w).out(),
{
    unimplemented!()
}

/// what went through a handle of standard output
pub axiom fn vx_sync<F: io::Write>(tracked w: &mut VxWorld, f: &F)
    ensures
        final(w).same_job(old(w)),
        if f.sink() == old(w).stdout() {
            final(w).sent() == f.written() && final(w).out() == f.delivered()
        } else {
            final(w).sent() == old(w).sent() && final(w).out() == old(w).out()
        },
;

/// the exit status tells success from failure
#[verifier::external_body]
pub fn vx_exit(code: i32, Tracked(w): Tracked<&mut VxWorld>) -> !
    requires
        code == 0 ==> old(w).done(), //@ C24
        code != 0 ==> old(w).impossible(), //@ C24
{
    unimplemented!()
}

@fn main
@params Tracked(vx_w): Tracked<&mut VxWorld>
    requires
        old(vx_w).sent() == VSeq::<u8>::empty(),
        old(vx_w).out() == VSeq::<u8>::empty(),
    ensures
        final(vx_w).done(), //@ C24
