@module diff pw_diff_lib/src/diff.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::byte_diff::{unreadable, ByteChangeDiff, PathAndBytes};
use crate::apply_bytes::models;
use crate::apply_text::texts;
use crate::patch::*;
use crate::sequence::lines_ok;
use crate::text_diff::{text_patch_of, unreadable_text, PathAndLines, TextChangeDiff};
use std::io;
use std::io::ErrorKind;
use std::path::Path;
broadcast use crate::prelude::ax_path_arg;
@fn Diff::new
@ret r
    ensures
        match r {
            Ok(d) => d.describes(name_of(before_file_path), name_of(after_file_path), context as int),
            Err(_) => no_diff(name_of(before_file_path), name_of(after_file_path)),
        },
@fn Diff::from_reader
@needs derived
@ret r
    ensures
        json_read((*old(reader)).rest(), (*old(reader)).faulty(), r),
@fn Diff::to_writer
@needs derived
@ret r
    ensures
        (*final(writer)).sink() == (*old(writer)).sink(),
        match r {
            Ok(_) => json_written((*old(writer)).written(), (*final(writer)).written(), self.val()),
            Err(_) => sink_faulty((*old(writer)).sink()) || !plain(self.val()),
        },
@bottom
impl Diff {
    /// the kind of diff, what it is about and what it holds
    pub open spec fn describes(&self, b: VSeq<u8>, a: VSeq<u8>, n: int) -> bool {
        match *self {
            Diff::TextChange(d) => {
                &&& fs_exists(b) && fs_exists(a) && utf8(fs_content(b)) && utf8(fs_content(a))
                &&& d.names(b, a)
                &&& text_patch_of(fs_content(b), fs_content(a), n, d.clump_values())
            },
            Diff::ByteChange(d) => {
                &&& fs_exists(b) && fs_exists(a) && (unreadable_text(b) || unreadable_text(a))
                &&& d.names(b, a)
                &&& patch_of(fs_content(b), fs_content(a), n, d.clump_values())
            },
            Diff::TextRemove(p) => {
                &&& fs_exists(b) && !fs_exists(a) && utf8(fs_content(b))
                &&& p.names(b)
                &&& p.content() == fs_content(b)
            },
            Diff::ByteRemove(p) => {
                &&& fs_exists(b) && !fs_exists(a) && unreadable_text(b)
                &&& p.names(b)
                &&& p.content() == fs_content(b)
            },
            Diff::TextAdd(p) => {
                &&& !fs_exists(b) && fs_exists(a) && utf8(fs_content(a))
                &&& p.names(b)
                &&& p.content() == fs_content(a)
            },
            Diff::ByteAdd(p) => {
                &&& !fs_exists(b) && fs_exists(a) && unreadable_text(a)
                &&& p.names(b)
                &&& p.content() == fs_content(a)
            },
        }
    }
}

/// no diff is made: neither file exists, or one of those there cannot be read
pub open spec fn no_diff(b: VSeq<u8>, a: VSeq<u8>) -> bool {
    ||| !fs_exists(b) && !fs_exists(a)
    ||| fs_exists(b) && fs_faulty(b)
    ||| fs_exists(a) && fs_faulty(a)
}

/// C16: with files that can be read, the kind follows from which exist and are text
pub proof fn theorem_kind(d: Diff, b: VSeq<u8>, a: VSeq<u8>, n: int)
    requires
        d.describes(b, a, n),
        !fs_faulty(b) && !fs_faulty(a),
    ensures
        d is TextChange <==> fs_exists(b) && fs_exists(a) && utf8(fs_content(b)) && utf8(fs_content(a)),
        d is ByteChange <==> fs_exists(b) && fs_exists(a) && !(utf8(fs_content(b)) && utf8(fs_content(a))),
        d is TextRemove <==> fs_exists(b) && !fs_exists(a) && utf8(fs_content(b)),
        d is ByteRemove <==> fs_exists(b) && !fs_exists(a) && !utf8(fs_content(b)),
        d is TextAdd <==> !fs_exists(b) && fs_exists(a) && utf8(fs_content(a)),
        d is ByteAdd <==> !fs_exists(b) && fs_exists(a) && !utf8(fs_content(a)),
{
}
@json
use crate::serde_model::{json_read, json_written, plain, serde_json, Val, Valued};
@derive Diff
@json
/// C21: what is read back from what was written is the same diff
pub proof fn theorem_read_back(d: Diff, e: Diff)
    requires
        d.val() == e.val(),
    ensures
        d.same(e),
{
    match (d, e) {
        (Diff::TextChange(x), Diff::TextChange(y)) => crate::text_diff::lemma_same_text(x, y),
        (Diff::ByteChange(x), Diff::ByteChange(y)) => crate::byte_diff::lemma_same_bytes(x, y),
        (Diff::TextAdd(x), Diff::TextAdd(y)) => crate::text_diff::lemma_same_lines(x, y),
        (Diff::TextRemove(x), Diff::TextRemove(y)) => crate::text_diff::lemma_same_lines(x, y),
        (Diff::ByteAdd(x), Diff::ByteAdd(y)) => crate::byte_diff::lemma_same_whole(x, y),
        (Diff::ByteRemove(x), Diff::ByteRemove(y)) => crate::byte_diff::lemma_same_whole(x, y),
        _ => {
            json_Diff::lemma_names();
            assert(false);
        },
    }
}

impl Diff {
    /// the same kind of diff of the same files with the same clumps or contents
    pub open spec fn same(&self, o: Diff) -> bool {
        match (*self, o) {
            (Diff::TextChange(x), Diff::TextChange(y)) => x.same(y),
            (Diff::ByteChange(x), Diff::ByteChange(y)) => x.same(y),
            (Diff::TextAdd(x), Diff::TextAdd(y)) => x.same(y),
            (Diff::TextRemove(x), Diff::TextRemove(y)) => x.same(y),
            (Diff::ByteAdd(x), Diff::ByteAdd(y)) => x.same(y),
            (Diff::ByteRemove(x), Diff::ByteRemove(y)) => x.same(y),
            _ => false,
        }
    }
}

/// C21 end to end, over the contracts of `to_writer` and `from_reader`
pub fn vx_write_and_read<W: io::Write, R: io::Read>(d: &Diff, w: &mut W, r: &mut R) -> (x: (bool, Option<Diff>))
    ensures
        !sink_faulty((*old(w)).sink()) && plain(d.val()) ==> x.0,
        x.0 && (*final(w)).written() == (*old(w)).written() + (*old(r)).rest() ==> match x.1 {
            Some(e) => d.same(e),
            None => (*old(r)).faulty(),
        },
{
    let ghost vx_w = (*w).written();
    let ghost vx_t = (*r).rest();
    let ghost vx_f = (*r).faulty();
    let vx_a = d.to_writer(w).is_ok();
    let ghost vx_x = (*w).written();
    let vx_b = match Diff::from_reader(r) {
        Ok(e) => Some(e),
        Err(_) => None,
    };
    proof {
        if vx_a && vx_x == vx_w + vx_t {
            assert(vx_x.skip(vx_w.len() as int) =~= vx_t);
            assert(crate::serde_model::json_of(vx_t, d.val()));
            assert(crate::serde_model::is_one::<Diff>(d.val()));
            if vx_b is Some {
                theorem_read_back(*d, vx_b->Some_0);
            }
        }
    }
    (vx_a, vx_b)
}
