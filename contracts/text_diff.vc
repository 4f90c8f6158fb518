@module text_diff pw_diff_lib/src/text_diff.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::common_subsequence::*;
use crate::changes::*;
use crate::sequence::{occurs, ConsumableSeq, ConsumableSeqIfce, Seq, WriteDataInto, lemma_cat_utf8, lemma_line_length, lemma_lines_unique, line_ok, lines_ok};
use crate::snippet::*;
use crate::patch::*;
use crate::apply_text::*;
use std::fs::File;
use std::io;
use std::path::{Path, PathBuf};
broadcast use {vstd::std_specs::iter::group_iter_axioms, crate::prelude::group_cat, crate::prelude::ax_path_arg};
@top
@inherent From<ChangeClump<String>> for TextChangeClump
@fn From<ChangeClump<String>> for TextChangeClump::from
@ret r
    requires
        exists|n: int| n <= 255 && #[trigger] clump_ok(change_clump.before.0@, change_clump.after.0@, n, change_clump.changes@),
    ensures
        recorded(change_clump.before.0@, change_clump.after.0@, change_clump.changes@, r.lines()),
        text_ok(r.lines()),
@ghost start
    let ghost vx_b = change_clump.before.0@;
    let ghost vx_a = change_clump.after.0@;
    let ghost vx_cs = change_clump.changes@;
    let ghost vx_n = choose|n: int| n <= 255 && #[trigger] clump_ok(vx_b, vx_a, n, vx_cs);
    proof {
        lemma_item_ok_string();
        lemma_clump_ends(vx_b, vx_a, vx_n, vx_cs);
        ax_len_strings(change_clump.before.0);
        ax_len_strings(change_clump.after.0);
    }
@ghost end
    proof {
        lemma_recorded(vx_b, vx_a, vx_n, vx_cs, vx_r.lines());
    }
@item impl ChangeBasics for TextChangeClump
open spec fn sp_ok(&self) -> bool {
    text_ok(self.says())
}
open spec fn sp_start(&self, reverse: bool) -> int {
    self.says().start(reverse)
}
open spec fn sp_end(&self, reverse: bool) -> int {
    self.says().end(reverse)
}
@fn ChangeBasics for TextChangeClump::before_start
@fn ChangeBasics for TextChangeClump::before_end
@item impl TextClumpBasics for TextChangeClump
open spec fn lines(&self) -> Clump<String> {
    self.says()
}
proof fn lemma_lines(&self) {
}
@fn TextClumpBasics for TextChangeClump::context_lengths
@fn TextClumpBasics for TextChangeClump::before_lines
@item impl TextChangeClump
pub open spec fn says(&self) -> Clump<String> {
    Clump {
        s0: self.before.start as int,
        v0: self.before.items@,
        s1: self.after.start as int,
        v1: self.after.items@,
        c0: self.context_lengths.0 as int,
        c1: self.context_lengths.1 as int,
    }
}
@fn TextChangeClump::before
@ret r
    ensures
        r.start == self.lines().start(reverse),
        r.items@ == self.lines().src(reverse),
@fn TextChangeClump::after
@ret r
    ensures
        r.start == self.lines().start(!reverse),
        r.items@ == self.lines().src(!reverse),
@fn TextChangeDiff::new
@ret r
    ensures
        match r {
            Ok(d) => {
                &&& fs_exists(name_of(before_file_path)) && fs_exists(name_of(after_file_path))
                &&& utf8(fs_content(name_of(before_file_path))) && utf8(fs_content(name_of(after_file_path)))
                &&& name_of_buf(d.before_path) == name_of(before_file_path)
                &&& name_of_buf(d.after_path) == name_of(after_file_path)
                &&& text_patch_of(fs_content(name_of(before_file_path)), fs_content(name_of(after_file_path)), context as int, texts(d.clumps@))
                &&& all_text_ok(texts(d.clumps@))
            },
            Err(_) => unreadable_text(name_of(before_file_path)) || unreadable_text(name_of(after_file_path)),
        },
@ghost end
    proof {
        assert(patch_of(modifications.before.0@, modifications.after.0@, context as int, texts(vx_r.unwrap().clumps@)));
    }
@collect 1
    invariant_except_break
        script_ok(modifications.before.0@, modifications.after.0@, modifications.changes@),
        vx_it.state_ok(),
        *vx_it.before == modifications.before,
        *vx_it.after == modifications.after,
        vx_it.context == context,
        collect_inv(modifications.before.0@, modifications.after.0@, context as int, modifications.changes@, vx_ls, vx_it.todo(), vx_it.stash),
        all_recorded(modifications.before.0@, modifications.after.0@, vx_ls, texts(vx_out@)),
        all_text_ok(texts(vx_out@)),
    ensures
        clumps_ok(modifications.before.0@, modifications.after.0@, context as int, modifications.changes@, vx_ls),
        all_recorded(modifications.before.0@, modifications.after.0@, vx_ls, texts(vx_out@)),
        all_text_ok(texts(vx_out@)),
    decreases nonnc(modifications.changes@).len() - all_nonnc(vx_ls).len(),
@ghost collect 1 before
    let ghost mut vx_ls = VSeq::<VSeq<Change>>::empty();
    proof { lemma_collect_start(modifications.before.0@, modifications.after.0@, context as int, modifications.changes@); }
@ghost collect 1 start
    broadcast use lemma_collect_step;
    let ghost vx_prev = vx_out@;
    let ghost vx_ls0 = vx_ls;
@ghost collect 1 item
    proof {
        let m = texts(vx_prev.push(vx_item));
        vx_ls = vx_ls.push(vx_cs);
        assert forall|k: int| 0 <= k < m.len() implies recorded(modifications.before.0@, modifications.after.0@, vx_ls[k], #[trigger] m[k]) && text_ok(m[k]) by {
            if k < vx_prev.len() {
                assert(m[k] == texts(vx_prev)[k]);
                assert(vx_ls[k] == vx_ls0[k]);
            }
        }
    }
@ghost collect 1 got
    let ghost vx_cs = c.changes@;
    proof {
        reveal(cut_done);
    }
@fn TextChangeDiff::from_reader
@needs derived
@ret r
    ensures
        json_read((*old(reader)).rest(), (*old(reader)).faulty(), r),
@fn TextChangeDiff::to_writer
@needs derived
@ret r
    ensures
        (*final(writer)).sink() == (*old(writer)).sink(),
        match r {
            Ok(_) => json_written((*old(writer)).written(), (*final(writer)).written(), self.val()),
            Err(_) => sink_faulty((*old(writer)).sink()) || !plain(self.val()),
        },
@fn TextChangeDiff::before_path
@ret r
    ensures
        name_of(r) == name_of_buf(self.before_path),
@fn TextChangeDiff::after_path
@ret r
    ensures
        name_of(r) == name_of_buf(self.after_path),
@item impl ApplyClumpsFuzzy<TextChangeClump> for TextChangeDiff
open spec fn sp_clumps(&self) -> VSeq<TextChangeClump> {
    self.clumps@
}
@fn ApplyClumpsFuzzy<TextChangeClump> for TextChangeDiff::clumps
@fn PathAndLines::new
@ret r
    ensures
        match r {
            Ok(p) => {
                &&& fs_exists(name_of(path))
                &&& utf8(fs_content(name_of(path)))
                &&& name_of_buf(p.path) == name_of(path)
                &&& cat(p.lines@) == fs_content(name_of(path))
                &&& lines_ok(p.lines@)
            },
            Err(_) => unreadable_text(name_of(path)),
        },
@loop 1
    invariant
        cat(lines@) + reader.rest() == fs_content(name_of(path)),
        fs_exists(name_of(path)),
        reader.faulty() == fs_faulty(name_of(path)),
        forall|i: int| 0 <= i < lines@.len() ==> line_ok(sbytes(#[trigger] lines@[i]), i == lines@.len() - 1),
        reader.rest().len() > 0 && lines@.len() > 0 ==> line_ok(sbytes(lines@.last()), false),
    ensures
        reader.rest().len() == 0,
    decreases reader.rest().len(),
@ghost after loop 1
    proof {
        lemma_cat_utf8(lines@);
        assert(cat(lines@) + reader.rest() =~= cat(lines@));
    }
@ghost loop 1 start
    let ghost vx_lines = lines@;
    let ghost vx_rest = reader.rest();
    proof {
        lemma_cat_utf8(lines@);
        if utf8(fs_content(name_of(path))) {
            lemma_utf8_rest(cat(lines@), vx_rest);
        }
        lemma_line_length(vx_rest);
    }
@ghost loop 1 end
    proof {
        let n = line_length(vx_rest);
        lemma_cat_push(vx_lines, lines@.last());
        assert(vx_rest =~= vx_rest.take(n) + vx_rest.skip(n));
        assert(VSeq::<u8>::empty() + vx_rest.take(n) =~= vx_rest.take(n));
    }
@fn PathAndLines::path
@ret r
    ensures
        name_of(r) == name_of_buf(self.path),
@fn PathAndLines::change_path
    ensures
        name_of_buf(final(self).path) == name_of(new_path),
        final(self).lines == old(self).lines,
@fn PathAndLines::write_into
@ret r
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + cat(self.lines@),
@loop 1 it
    invariant
        (*into).sink() == (*old(into)).sink(),
        it.seq().len() == self.lines@.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.lines@[k],
        (*into).written() == (*old(into)).written() + cat(self.lines@.take(it.index())),
@bottom
impl TextChangeDiff {
    pub open spec fn names(&self, b: VSeq<u8>, a: VSeq<u8>) -> bool {
        name_of_buf(self.before_path) == b && name_of_buf(self.after_path) == a
    }

    pub open spec fn clump_values(&self) -> VSeq<Clump<String>> {
        texts(self.clumps@)
    }
}

impl PathAndLines {
    pub open spec fn names(&self, n: VSeq<u8>) -> bool {
        name_of_buf(self.path) == n
    }

    pub open spec fn content(&self) -> VSeq<u8> {
        cat(self.lines@)
    }
}

/// a file that cannot be read as text
pub open spec fn unreadable_text(name: VSeq<u8>) -> bool {
    !fs_exists(name) || fs_faulty(name) || !utf8(fs_content(name))
}

/// the clumps are a patch between the lines of two texts
pub open spec fn text_patch_of(b: VSeq<u8>, a: VSeq<u8>, n: int, l: VSeq<Clump<String>>) -> bool {
    exists|x: VSeq<String>, y: VSeq<String>| {
        &&& cat(x) == b && lines_ok(x)
        &&& cat(y) == a && lines_ok(y)
        &&& #[trigger] patch_of(x, y, n, l)
    }
}

/// C06, C07: x the lines of the file the patch is applied to, as `Seq<String>::read` gives them,
/// `text_exact_gives` what `apply_into` promises, `text_patch_of` what `new` promises
pub proof fn theorem_text(b: VSeq<u8>, a: VSeq<u8>, n: int, l: VSeq<Clump<String>>, x: VSeq<String>, out: VSeq<u8>, s: Statistics, reverse: bool)
    requires
        text_patch_of(b, a, n, l),
        n <= 255,
        lines_ok(x),
        cat(x) == (if reverse { a } else { b }),
        text_exact_gives(l, x, reverse, out, s),
    ensures
        out == (if reverse { b } else { a }),
        s.clean == l.len(),
        s.fuzzy == 0 && s.already_applied == 0 && s.already_applied_fuzzy == 0 && s.failed == 0,
{
    let (p, q) = choose|p: VSeq<String>, q: VSeq<String>| {
        &&& cat(p) == b && lines_ok(p)
        &&& cat(q) == a && lines_ok(q)
        &&& #[trigger] patch_of(p, q, n, l)
    };
    lemma_lines_unique(x, if reverse { q } else { p });
    lemma_exact(p, q, n, l);
}

/// C09: a complete patch is recognised; `is_already_applied` promises the premise about `r`
pub proof fn theorem_text_there(b: VSeq<u8>, a: VSeq<u8>, n: int, l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, r: bool)
    requires
        text_patch_of(b, a, n, l),
        n <= 255,
        lines_ok(x),
        cat(x) == (if reverse { b } else { a }),
        (exists|y: VSeq<String>| #[trigger] exact(l, y, x, reverse)) ==> r,
    ensures
        r,
{
    let (p, q) = choose|p: VSeq<String>, q: VSeq<String>| {
        &&& cat(p) == b && lines_ok(p)
        &&& cat(q) == a && lines_ok(q)
        &&& #[trigger] patch_of(p, q, n, l)
    };
    lemma_lines_unique(x, if reverse { p } else { q });
    lemma_exact(p, q, n, l);
}
@json
use crate::serde_model::{json_read, json_written, plain, serde_json, Val, Valued};
@derive TextChangeClump
@derive TextChangeDiff
@derive PathAndLines
@json
impl TextChangeDiff {
    pub open spec fn same(&self, o: TextChangeDiff) -> bool {
        &&& name_of_buf(self.before_path) == name_of_buf(o.before_path)
        &&& name_of_buf(self.after_path) == name_of_buf(o.after_path)
        &&& self.clump_values() == o.clump_values()
    }
}

impl PathAndLines {
    pub open spec fn same(&self, o: PathAndLines) -> bool {
        &&& name_of_buf(self.path) == name_of_buf(o.path)
        &&& self.lines@ == o.lines@
        &&& self.content() == o.content()
    }
}

pub proof fn lemma_same_strings(a: VSeq<String>, b: VSeq<String>)
    requires
        a.map_values(|t: String| t.val()) == b.map_values(|t: String| t.val()),
    ensures
        a == b,
{
    crate::serde_model::lemma_same_list(a, b);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        ax_string_value(a[i], b[i]);
    }
    assert(a =~= b);
}

pub proof fn lemma_same_clump(x: TextChangeClump, y: TextChangeClump)
    requires
        x.val() == y.val(),
    ensures
        x.lines() == y.lines(),
{
    json_TextChangeClump::lemma_fields(x, y);
    crate::snippet::json_Snippet::lemma_fields(x.before, y.before);
    crate::snippet::json_Snippet::lemma_fields(x.after, y.after);
    crate::serde_model::lemma_pair(x.context_lengths, y.context_lengths);
    lemma_same_strings(x.before.items@, y.before.items@);
    lemma_same_strings(x.after.items@, y.after.items@);
}

pub proof fn lemma_same_text(x: TextChangeDiff, y: TextChangeDiff)
    requires
        x.val() == y.val(),
    ensures
        x.same(y),
{
    json_TextChangeDiff::lemma_fields(x, y);
    crate::serde_model::lemma_same_list(x.clumps@, y.clumps@);
    assert forall|i: int| 0 <= i < x.clumps@.len() implies (#[trigger] x.clumps@[i]).lines() == y.clumps@[i].lines() by {
        lemma_same_clump(x.clumps@[i], y.clumps@[i]);
    }
    assert(x.clump_values() =~= y.clump_values());
}

pub proof fn lemma_same_lines(x: PathAndLines, y: PathAndLines)
    requires
        x.val() == y.val(),
    ensures
        x.same(y),
{
    json_PathAndLines::lemma_fields(x, y);
    lemma_same_strings(x.lines@, y.lines@);
}
