@module byte_diff pw_diff_lib/src/byte_diff.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::common_subsequence::*;
use crate::changes::*;
use crate::sequence::{occurs, ConsumableSeq, ConsumableSeqIfce, Seq, WriteDataInto};
use crate::snippet::*;
use crate::patch::*;
use crate::apply_bytes::*;
use std::fs::File;
use std::io;
use std::io::Read;
use std::path::{Path, PathBuf};
broadcast use {vstd::std_specs::iter::group_iter_axioms, crate::prelude::group_cat, crate::prelude::ax_path_arg};
@top
@inherent From<ChangeClump<u8>> for ByteChangeClump
@fn From<ChangeClump<u8>> for ByteChangeClump::from
@ret r
    requires
        exists|n: int| n <= 255 && #[trigger] clump_ok(change_clump.before.0@, change_clump.after.0@, n, change_clump.changes@),
    ensures
        recorded(change_clump.before.0@, change_clump.after.0@, change_clump.changes@, r.model()),
@ghost start
    let ghost vx_b = change_clump.before.0@;
    let ghost vx_a = change_clump.after.0@;
    let ghost vx_cs = change_clump.changes@;
    let ghost vx_n = choose|n: int| n <= 255 && #[trigger] clump_ok(vx_b, vx_a, n, vx_cs);
    proof {
        lemma_item_ok_u8();
        lemma_clump_ends(vx_b, vx_a, vx_n, vx_cs);
    }
@ghost end
    proof {
        lemma_recorded(vx_b, vx_a, vx_n, vx_cs, vx_r.model());
    }
@fn ByteChangeClump::before
@ret r
    ensures
        r.start == self.model().start(reverse),
        r.items@ == self.model().src(reverse),
@fn ByteChangeClump::after
@ret r
    ensures
        r.start == self.model().start(!reverse),
        r.items@ == self.model().src(!reverse),
@item impl ApplyClumpClean for ByteChangeClump
open spec fn model(&self) -> Clump<u8> {
    Clump {
        s0: self.before.start as int,
        v0: self.before.items@,
        s1: self.after.start as int,
        v1: self.after.items@,
        c0: self.context_lengths.0 as int,
        c1: self.context_lengths.1 as int,
    }
}
@fn ApplyClumpClean for ByteChangeClump::before_start
@fn ApplyClumpClean for ByteChangeClump::will_apply
@ghost start
    proof { lemma_item_ok_u8(); }
@fn ApplyClumpClean for ByteChangeClump::is_already_applied
@ghost start
    proof { lemma_item_ok_u8(); }
@fn ApplyClumpClean for ByteChangeClump::apply_into
@ghost start
    proof {
        assert(trimmed(self.before.items@, None) =~= self.before.items@);
        assert(trimmed(self.after.items@, None) =~= self.after.items@);
        assert(old(pd).sp_data().0@.subrange(old(pd).sp_consumed(), old(pd).sp_consumed()) =~= VSeq::empty());
        ax_len_bytes(old(pd).sp_data().0);
    }
@fn ApplyClumpClean for ByteChangeClump::already_applied_into
@ghost start
    proof {
        assert(old(pd).sp_data().0@.subrange(old(pd).sp_consumed(), old(pd).sp_consumed()) =~= VSeq::empty());
        ax_len_bytes(old(pd).sp_data().0);
    }
@fn ByteChangeDiff::new
@ret r
    ensures
        match r {
            Ok(d) => {
                &&& fs_exists(name_of(before_file_path)) && fs_exists(name_of(after_file_path))
                &&& name_of_buf(d.before_path) == name_of(before_file_path)
                &&& name_of_buf(d.after_path) == name_of(after_file_path)
                &&& patch_of(fs_content(name_of(before_file_path)), fs_content(name_of(after_file_path)), context as int, models(d.clumps@))
            },
            Err(_) => unreadable(name_of(before_file_path)) || unreadable(name_of(after_file_path)),
        },
@collect 1 boxed
    invariant_except_break
        script_ok(modifications.before.0@, modifications.after.0@, modifications.changes@),
        vx_it.state_ok(),
        *vx_it.before == modifications.before,
        *vx_it.after == modifications.after,
        vx_it.context == context,
        collect_inv(modifications.before.0@, modifications.after.0@, context as int, modifications.changes@, vx_ls, vx_it.todo(), vx_it.stash),
        all_recorded(modifications.before.0@, modifications.after.0@, vx_ls, models(vx_out@)),
    ensures
        clumps_ok(modifications.before.0@, modifications.after.0@, context as int, modifications.changes@, vx_ls),
        all_recorded(modifications.before.0@, modifications.after.0@, vx_ls, models(vx_out@)),
    decreases nonnc(modifications.changes@).len() - all_nonnc(vx_ls).len(),
@ghost collect 1 before
    let ghost mut vx_ls = VSeq::<VSeq<Change>>::empty();
    proof { lemma_collect_start(modifications.before.0@, modifications.after.0@, context as int, modifications.changes@); }
@ghost collect 1 start
    broadcast use lemma_collect_step;
    let ghost vx_prev = vx_out@;
    let ghost vx_ls0 = vx_ls;
@ghost collect 1 item
    proof {
        let m = models(vx_prev.push(vx_item));
        vx_ls = vx_ls.push(vx_cs);
        assert forall|k: int| 0 <= k < m.len() implies recorded(modifications.before.0@, modifications.after.0@, vx_ls[k], #[trigger] m[k]) by {
            if k < vx_prev.len() {
                assert(m[k] == models(vx_prev)[k]);
                assert(vx_ls[k] == vx_ls0[k]);
            }
        }
    }
@ghost collect 1 got
    let ghost vx_cs = c.changes@;
    proof {
        reveal(cut_done);
    }
@fn ByteChangeDiff::from_reader
@needs derived
@ret r
    ensures
        json_read((*old(reader)).rest(), (*old(reader)).faulty(), r),
@fn ByteChangeDiff::to_writer
@needs derived
@ret r
    ensures
        (*final(writer)).sink() == (*old(writer)).sink(),
        match r {
            Ok(_) => json_written((*old(writer)).written(), (*final(writer)).written(), self.val()),
            Err(_) => sink_faulty((*old(writer)).sink()) || !plain(self.val()),
        },
@fn ByteChangeDiff::before_path
@ret r
    ensures
        name_of(r) == name_of_buf(self.before_path),
@fn ByteChangeDiff::after_path
@ret r
    ensures
        name_of(r) == name_of_buf(self.after_path),
@item impl ApplyClumpsClean<ByteChangeClump> for ByteChangeDiff
open spec fn sp_clumps(&self) -> VSeq<ByteChangeClump> {
    self.clumps@
}
@fn ApplyClumpsClean<ByteChangeClump> for ByteChangeDiff::clumps
@fn PathAndBytes::new
@ret r
    ensures
        match r {
            Ok(p) => {
                &&& fs_exists(name_of(path))
                &&& name_of_buf(p.path) == name_of(path)
                &&& p.bytes@ == fs_content(name_of(path))
            },
            Err(_) => unreadable(name_of(path)),
        },
@fn PathAndBytes::path
@ret r
    ensures
        name_of(r) == name_of_buf(self.path),
@fn PathAndBytes::change_path
    ensures
        name_of_buf(final(self).path) == name_of(new_path),
        final(self).bytes == old(self).bytes,
@fn PathAndBytes::write_into
@ret r
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + self.bytes@,
@bottom
impl ByteChangeDiff {
    pub open spec fn names(&self, b: VSeq<u8>, a: VSeq<u8>) -> bool {
        name_of_buf(self.before_path) == b && name_of_buf(self.after_path) == a
    }

    pub open spec fn clump_values(&self) -> VSeq<Clump<u8>> {
        models(self.clumps@)
    }
}

impl PathAndBytes {
    pub open spec fn names(&self, n: VSeq<u8>) -> bool {
        name_of_buf(self.path) == n
    }

    pub open spec fn content(&self) -> VSeq<u8> {
        self.bytes@
    }
}

/// a file that cannot be read as bytes
pub open spec fn unreadable(name: VSeq<u8>) -> bool {
    !fs_exists(name) || fs_faulty(name)
}

/// C08: `exact_gives` is what `apply_into` promises, `patch_of` what `new` promises
pub proof fn theorem_bytes(b: VSeq<u8>, a: VSeq<u8>, n: int, l: VSeq<Clump<u8>>, out: VSeq<u8>, reverse: bool)
    requires
        patch_of(b, a, n, l),
        n <= 255,
        exact_gives(l, if reverse { a } else { b }, reverse, out),
    ensures
        out == (if reverse { b } else { a }),
{
    lemma_exact(b, a, n, l);
}

/// C09 for bytes: `all_there` is what `already_applied` answers
pub proof fn theorem_bytes_there(b: VSeq<u8>, a: VSeq<u8>, n: int, l: VSeq<Clump<u8>>)
    requires
        patch_of(b, a, n, l),
        n <= 255,
    ensures
        all_there(l, a, false),
        all_there(l, b, true),
{
    lemma_exact(b, a, n, l);
    lemma_exact_there(l, b, a, false);
    lemma_exact_there(l, a, b, true);
}
@json
use crate::serde_model::{json_read, json_written, plain, serde_json, Val, Valued};
@derive ByteChangeClump
@derive ByteChangeDiff
@derive PathAndBytes
@json
impl ByteChangeDiff {
    pub open spec fn same(&self, o: ByteChangeDiff) -> bool {
        &&& name_of_buf(self.before_path) == name_of_buf(o.before_path)
        &&& name_of_buf(self.after_path) == name_of_buf(o.after_path)
        &&& self.clump_values() == o.clump_values()
    }
}

impl PathAndBytes {
    pub open spec fn same(&self, o: PathAndBytes) -> bool {
        &&& name_of_buf(self.path) == name_of_buf(o.path)
        &&& self.content() == o.content()
    }
}

pub proof fn lemma_same_octets(a: VSeq<u8>, b: VSeq<u8>)
    requires
        a.map_values(|t: u8| t.val()) == b.map_values(|t: u8| t.val()),
    ensures
        a == b,
{
    crate::serde_model::lemma_same_list(a, b);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(a[i].val() == b[i].val());
    }
    assert(a =~= b);
}

pub proof fn lemma_same_clump(x: ByteChangeClump, y: ByteChangeClump)
    requires
        x.val() == y.val(),
    ensures
        x.model() == y.model(),
{
    json_ByteChangeClump::lemma_fields(x, y);
    crate::snippet::json_Snippet::lemma_fields(x.before, y.before);
    crate::snippet::json_Snippet::lemma_fields(x.after, y.after);
    crate::serde_model::lemma_pair(x.context_lengths, y.context_lengths);
    lemma_same_octets(x.before.items@, y.before.items@);
    lemma_same_octets(x.after.items@, y.after.items@);
}

pub proof fn lemma_same_bytes(x: ByteChangeDiff, y: ByteChangeDiff)
    requires
        x.val() == y.val(),
    ensures
        x.same(y),
{
    json_ByteChangeDiff::lemma_fields(x, y);
    crate::serde_model::lemma_same_list(x.clumps@, y.clumps@);
    assert forall|i: int| 0 <= i < x.clumps@.len() implies (#[trigger] x.clumps@[i]).model() == y.clumps@[i].model() by {
        lemma_same_clump(x.clumps@[i], y.clumps@[i]);
    }
    assert(x.clump_values() =~= y.clump_values());
}

pub proof fn lemma_same_whole(x: PathAndBytes, y: PathAndBytes)
    requires
        x.val() == y.val(),
    ensures
        x.same(y),
{
    json_PathAndBytes::lemma_fields(x, y);
    lemma_same_octets(x.bytes@, y.bytes@);
}
