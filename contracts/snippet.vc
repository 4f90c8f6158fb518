@module snippet pw_diff_lib/src/snippet.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use std::io;
use std::io::Write;
broadcast use {vstd::std_specs::iter::group_iter_axioms, crate::prelude::group_cat};
@top
/// the reductions leave a valid stretch of `n` items
pub open spec fn redn_ok(n: int, reductions: Option<(u8, u8)>) -> bool {
    reductions.is_some() ==> reductions.unwrap().0 + reductions.unwrap().1 <= n
}

pub open spec fn redn0(reductions: Option<(u8, u8)>) -> int {
    if reductions.is_some() { reductions.unwrap().0 as int } else { 0 }
}

pub open spec fn redn1(reductions: Option<(u8, u8)>) -> int {
    if reductions.is_some() { reductions.unwrap().1 as int } else { 0 }
}

/// `s` without its trimmed ends
pub open spec fn trimmed<T>(s: VSeq<T>, reductions: Option<(u8, u8)>) -> VSeq<T> {
    s.subrange(redn0(reductions), s.len() - redn1(reductions))
}
@item impl Len for Snippet<T>
open spec fn sp_len(&self) -> int {
    self.items@.len() as int
}
@fn Len for Snippet<T>::len
@fn Snippet<T>::range
@ret r
    requires
        redn_ok(self.items@.len() as int, reductions),
    ensures
        r.0 == redn0(reductions),
        r.1 == self.items@.len() - redn1(reductions),
@fn Snippet<T>::adj_length
@ret r
    requires
        redn_ok(self.items@.len() as int, reductions),
    ensures
        r == self.items@.len() - redn0(reductions) - redn1(reductions),
@fn Snippet<T>::adj_start
@ret r
    requires
        0 <= self.start + offset,
        self.start + offset + redn0(reductions) <= usize::MAX,
    ensures
        r == self.start + offset + redn0(reductions),
@fn Snippet<T>::items
@ret r
    requires
        range.is_some() ==> range.unwrap().0 <= range.unwrap().1 <= self.items@.len(),
        self.items@.len() + self.start <= usize::MAX,
    ensures
        range.is_some() ==> yields(r, self.items@.subrange(range.unwrap().0 as int, range.unwrap().1 as int)),
        range.is_none() ==> yields(r, self.items@),
@item trait SnippetWrite
spec fn sp_count(&self) -> int;
spec fn sp_bytes(&self, reductions: Option<(u8, u8)>) -> VSeq<u8>;
@fn trait SnippetWrite::write_into
@ret r
    requires
        redn_ok(self.sp_count(), reductions),
    ensures
        (*final(writer)).sink() == (*old(writer)).sink(),
        r.is_ok() ==> (*final(writer)).written() == (*old(writer)).written() + self.sp_bytes(reductions),
@item impl SnippetWrite for Snippet<u8>
open spec fn sp_count(&self) -> int {
    self.items@.len() as int
}
open spec fn sp_bytes(&self, reductions: Option<(u8, u8)>) -> VSeq<u8> {
    trimmed(self.items@, reductions)
}
@fn SnippetWrite for Snippet<u8>::write_into
@item impl SnippetWrite for Snippet<String>
open spec fn sp_count(&self) -> int {
    self.items@.len() as int
}
open spec fn sp_bytes(&self, reductions: Option<(u8, u8)>) -> VSeq<u8> {
    cat(trimmed(self.items@, reductions))
}
@fn SnippetWrite for Snippet<String>::write_into
@loop 1 it
    invariant
        (*writer).sink() == (*old(writer)).sink(),
        it.seq().len() == trimmed(self.items@, reductions).len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == trimmed(self.items@, reductions)[k],
        (*writer).written() == (*old(writer)).written() + cat(trimmed(self.items@, reductions).take(it.index())),
@loop 2 it
    invariant
        (*writer).sink() == (*old(writer)).sink(),
        it.seq().len() == self.items@.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.items@[k],
        (*writer).written() == (*old(writer)).written() + cat(self.items@.take(it.index())),
@derive Snippet
