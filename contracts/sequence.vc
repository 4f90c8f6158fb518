@module sequence pw_diff_lib/src/sequence.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::snippet::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::io;
use std::io::{BufRead, BufReader, Read, Write};
use std::ops::Deref;
use vstd::std_specs::cmp::PartialEqSpec;
broadcast use {vstd::std_specs::iter::group_iter_axioms, vstd::std_specs::hash::group_hash_axioms, crate::prelude::group_cat, crate::prelude::ax_to_string};
@top
/// `sub` occurs in `s` at position `at`
pub open spec fn occurs<T>(s: VSeq<T>, sub: VSeq<T>, at: int) -> bool {
    0 <= at && at + sub.len() <= s.len() && s.subrange(at, at + sub.len()) == sub
}

/// `o` lists exactly the positions of `x` in `s`, increasing; nothing if there is none
pub open spec fn idx_ok<T>(s: VSeq<T>, x: T, o: Option<VSeq<usize>>) -> bool {
    match o {
        Some(v) => {
            &&& v.len() > 0
            &&& forall|a: int, b: int| 0 <= a < b < v.len() ==> v[a] < v[b]
            &&& forall|a: int| 0 <= a < v.len() ==> (#[trigger] v[a]) < s.len() && s[v[a] as int] == x
            &&& forall|p: int| 0 <= p < s.len() && #[trigger] s[p] == x ==> v.contains(p as usize)
        },
        None => !s.contains(x),
    }
}

/// one more item: its list gets the new position at the end, the others stay
pub proof fn lemma_idx_push<T>(s: VSeq<T>, n: int, x: T, o: Option<VSeq<usize>>, o2: Option<VSeq<usize>>)
    requires
        0 <= n < s.len(),
        n <= usize::MAX,
        idx_ok(s.take(n), x, o),
        s[n] == x ==> o2.is_some() && o2.unwrap() =~= (if o.is_some() { o.unwrap() } else { VSeq::empty() }).push(n as usize),
        s[n] != x ==> o2 == o,
    ensures
        idx_ok(s.take(n + 1), x, o2),
{
    let t = s.take(n);
    let t2 = s.take(n + 1);
    assert(t2 == t.push(s[n]));
    if s[n] == x {
        let v2 = o2.unwrap();
        let v = if o.is_some() { o.unwrap() } else { VSeq::empty() };
        assert(v2 == v.push(n as usize));
        assert forall|p: int| 0 <= p < t2.len() && #[trigger] t2[p] == x implies v2.contains(p as usize) by {
            if p == n {
                assert(v2[v.len() as int] == n as usize);
            } else {
                assert(t[p] == x);
                if o.is_some() {
                    let k = choose|k: int| 0 <= k < v.len() && v[k] == p as usize;
                    assert(v.contains(p as usize));
                    assert(v2[k] == p as usize);
                } else {
                    assert(t.contains(x));
                }
            }
        }
        assert forall|a: int| 0 <= a < v2.len() implies (#[trigger] v2[a]) < t2.len() && t2[v2[a] as int] == x by {
            if a < v.len() {
                assert(v2[a] == v[a]);
                assert(t[v[a] as int] == x);
            }
        }
    } else {
        match o {
            Some(v) => {
                assert forall|p: int| 0 <= p < t2.len() && #[trigger] t2[p] == x implies v.contains(p as usize) by {
                    assert(t[p] == x);
                }
                assert forall|a: int| 0 <= a < v.len() implies (#[trigger] v[a]) < t2.len() && t2[v[a] as int] == x by {
                    assert(t[v[a] as int] == x);
                }
            },
            None => {
                if t2.contains(x) {
                    let p = choose|p: int| 0 <= p < t2.len() && t2[p] == x;
                    assert(t[p] == x);
                }
            },
        }
    }
}

/// lines as `BufRead` cuts them
pub open spec fn lines_ok(lines: VSeq<String>) -> bool {
    forall|i: int| 0 <= i < lines.len() ==> line_ok(sbytes(#[trigger] lines[i]), i == lines.len() - 1)
}

/// not empty, no newline but at the end, and there unless it is the last line
pub open spec fn line_ok(b: VSeq<u8>, last: bool) -> bool {
    &&& b.len() > 0
    &&& forall|j: int| 0 <= j < b.len() - 1 ==> b[j] != 10u8
    &&& (!last ==> b[b.len() - 1] == 10u8)
}

/// a text can be cut into lines in one way only
pub proof fn lemma_lines_unique(x: VSeq<String>, y: VSeq<String>)
    requires
        lines_ok(x),
        lines_ok(y),
        cat(x) == cat(y),
    ensures
        x == y,
    decreases x.len(),
{
    if x.len() == 0 {
        if y.len() > 0 {
            lemma_cat_first(y);
        }
        assert(x =~= y);
    } else {
        lemma_cat_first(x);
        if y.len() > 0 {
            lemma_cat_first(y);
            lemma_first_line(x, y);
            lemma_first_line(y, x);
            let n = sbytes(x[0]).len() as int;
            assert(sbytes(x[0]) =~= cat(x).take(n));
            assert(sbytes(y[0]) =~= cat(y).take(n));
            lemma_sbytes_inj(x[0], y[0]);
            assert(cat(x.skip(1)) =~= cat(x).skip(n));
            assert(cat(y.skip(1)) =~= cat(y).skip(n));
            assert(lines_ok(x.skip(1)));
            assert(lines_ok(y.skip(1)));
            lemma_lines_unique(x.skip(1), y.skip(1));
            assert(x =~= seq![x[0]] + x.skip(1));
            assert(y =~= seq![y[0]] + y.skip(1));
        }
    }
}

proof fn lemma_cat_first(x: VSeq<String>)
    requires
        lines_ok(x),
        x.len() > 0,
    ensures
        cat(x) == sbytes(x[0]) + cat(x.skip(1)),
        line_ok(sbytes(x[0]), x.len() == 1),
        x.len() == 1 ==> cat(x) == sbytes(x[0]),
{
    let f = seq![x[0]];
    assert(x =~= f + x.skip(1));
    lemma_cat_add(f, x.skip(1));
    assert(f.drop_last() =~= VSeq::<String>::empty());
    assert(cat(f.drop_last()) == VSeq::<u8>::empty());
    assert(cat(f) =~= sbytes(x[0]));
    if x.len() == 1 {
        assert(x.skip(1) =~= VSeq::<String>::empty());
        assert(cat(x) =~= sbytes(x[0]));
    }
}

proof fn lemma_first_line(x: VSeq<String>, y: VSeq<String>)
    requires
        lines_ok(x),
        lines_ok(y),
        x.len() > 0,
        y.len() > 0,
        cat(x) == cat(y),
    ensures
        sbytes(x[0]).len() >= sbytes(y[0]).len(),
{
    lemma_cat_first(x);
    lemma_cat_first(y);
    let n = sbytes(x[0]).len() as int;
    if n < sbytes(y[0]).len() {
        assert(cat(x)[n - 1] == sbytes(x[0])[n - 1]);
        assert(cat(y)[n - 1] == sbytes(y[0])[n - 1]);
    }
}

pub proof fn lemma_line_length(s: VSeq<u8>)
    ensures
        0 <= line_length(s) <= s.len(),
        s.len() > 0 ==> line_length(s) > 0,
        forall|j: int| 0 <= j < line_length(s) - 1 ==> s[j] != 10u8,
        line_length(s) < s.len() ==> s[line_length(s) - 1] == 10u8,
    decreases s.len(),
{
    if s.len() > 0 && s[0] != 10u8 {
        let t = s.skip(1);
        lemma_line_length(t);
        assert forall|j: int| 0 <= j < line_length(s) - 1 implies s[j] != 10u8 by {
            if j > 0 {
                assert(s[j] == t[j - 1]);
            }
        }
    }
}

/// only a newline has a byte 10 in its encoding, and nothing else
pub proof fn lemma_newline_scalar(c: char)
    ensures
        vstd::utf8::encode_scalar(c as u32).len() > 0,
        c == '\n' ==> vstd::utf8::encode_scalar(c as u32) == VSeq::<u8>::empty().push(10u8),
        c != '\n' ==> forall|j: int| 0 <= j < vstd::utf8::encode_scalar(c as u32).len() ==> #[trigger] vstd::utf8::encode_scalar(c as u32)[j] != 10u8,
{
    let s = c as u32;
    if s < 128 {
        assert(s & 0x7f == s) by (bit_vector) requires s < 128;
    }
    assert(forall|x: u8| #[trigger] (0x80u8 | x) != 10u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0xC0u8 | x) != 10u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0xE0u8 | x) != 10u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0xF0u8 | x) != 10u8) by (bit_vector);
    if c == '\n' {
        assert(vstd::utf8::encode_scalar(c as u32) =~= VSeq::<u8>::empty().push(10u8));
    }
}

/// a piece cut after its newline is a line
pub proof fn lemma_piece(s: VSeq<char>, last: bool)
    requires
        piece_of(s, '\n', last),
    ensures
        line_ok(vstd::utf8::encode_utf8(s), last),
    decreases s.len(),
{
    let b = vstd::utf8::encode_utf8(s);
    let x = vstd::utf8::encode_scalar(s[0] as u32);
    assert(s.drop_first() =~= s.skip(1));
    let t = vstd::utf8::encode_utf8(s.skip(1));
    assert(b == x + t);
    lemma_newline_scalar(s[0]);
    if s.len() == 1 {
        assert(t.len() == 0);
        assert(b =~= x);
    } else {
        assert(s.skip(1).last() == s.last());
        lemma_piece(s.skip(1), last);
    }
}

pub proof fn lemma_joined_first(x: &str, s: VSeq<&str>)
    ensures
        joined(VSeq::empty().push(x) + s) == x@ + joined(s),
    decreases s.len(),
{
    let a = VSeq::empty().push(x) + s;
    if s.len() == 0 {
        assert(a.drop_last() =~= VSeq::<&str>::empty());
        assert(joined(a.drop_last()) =~= VSeq::<char>::empty());
        assert(joined(a) =~= x@ + joined(s));
    } else {
        assert(a.drop_last() =~= VSeq::empty().push(x) + s.drop_last());
        lemma_joined_first(x, s.drop_last());
        assert(a.last() == s.last());
        assert(joined(a) =~= x@ + joined(s));
    }
}

pub proof fn lemma_cat_utf8(lines: VSeq<String>)
    ensures
        utf8(cat(lines)),
    decreases lines.len(),
{
    if lines.len() > 0 {
        lemma_cat_utf8(lines.drop_last());
        lemma_utf8_string(lines.last());
        lemma_utf8_concat(cat(lines.drop_last()), sbytes(lines.last()));
    }
}
@fn Deref for Seq<T>::deref
@ret r
    ensures
        *r == self.0,
@fn Seq<T>::range_from
@ret r
    ensures
        r == Range(from, self.0@.len() as usize),
@fn Seq<T>::subsequence
@ret r
    requires
        range.0 <= range.1 <= self.0@.len(),
    ensures
        yields(r, self.0@.subrange(range.0 as int, range.1 as int)),
@fn Seq<T>::has_subsequence_at
@ret r
    requires
        item_ok::<T>(),
    ensures
        r == occurs(self.0@, subsequence@, at as int),
@closure 1 (&T, &T) -> (q: bool)
    ensures
        q == vx_p.0.eq_spec(vx_p.1),
@ghost end
    proof {
        if at <= self.0@.len() && self.0@.len() - at >= subsequence@.len() {
            let w = self.0@.subrange(at as int, at as int + subsequence@.len());
            let a = subsequence@.as_ref();
            let b = self.0@.subrange(at as int, self.0@.len() as int).as_ref();
            let z = a.zip_truncate(b);
            if vx_r {
                assert forall|i: int| 0 <= i < subsequence@.len() implies #[trigger] w[i] == subsequence@[i] by {
                    assert(z[i] == (a[i], b[i]));
                }
                assert(w =~= subsequence@);
            } else {
                assert(exists|i: int| 0 <= i < z.len() && !(*z[i].0).eq_spec(&*#[trigger] z[i].1));
                let i = choose|i: int| 0 <= i < z.len() && !(*z[i].0).eq_spec(&*#[trigger] z[i].1);
                assert(z[i] == (a[i], b[i]));
                assert(w[i] != subsequence@[i]);
            }
        }
    }
@fn Seq<T>::extract_snippet
@ret r
    requires
        item_ok::<T>(),
        range.0 <= range.1 <= self.0@.len(),
    ensures
        r.start == range.0,
        r.items@ == self.0@.subrange(range.0 as int, range.1 as int),
@fn Seq<String>::read
@ret r
    ensures
        match r {
            Ok(s) => cat(s.0@) == read.rest() && lines_ok(s.0@) && utf8(read.rest()),
            Err(_) => read.faulty() || !utf8(read.rest()),
        },
@loop 1
    invariant
        cat(lines@) + reader.rest() == read.rest(),
        reader.faulty() == read.faulty(),
        forall|i: int| 0 <= i < lines@.len() ==> line_ok(sbytes(#[trigger] lines@[i]), i == lines@.len() - 1),
        reader.rest().len() > 0 && lines@.len() > 0 ==> line_ok(sbytes(lines@.last()), false),
    ensures
        reader.rest().len() == 0,
    decreases reader.rest().len(),
@ghost after loop 1
    proof {
        lemma_cat_utf8(lines@);
        assert(cat(lines@) + reader.rest() =~= cat(lines@));
    }
@ghost loop 1 start
    let ghost vx_lines = lines@;
    let ghost vx_rest = reader.rest();
    proof {
        lemma_cat_utf8(lines@);
        if utf8(read.rest()) {
            lemma_utf8_rest(cat(lines@), vx_rest);
        }
        lemma_line_length(vx_rest);
    }
@ghost loop 1 end
    proof {
        let n = line_length(vx_rest);
        lemma_cat_push(vx_lines, lines@.last());
        assert(vx_rest =~= vx_rest.take(n) + vx_rest.skip(n));
        assert(VSeq::<u8>::empty() + vx_rest.take(n) =~= vx_rest.take(n));
    }
@fn Seq<u8>::read
@ret r
    ensures
        match r {
            Ok(s) => s.0@ == read.rest(),
            Err(_) => read.faulty(),
        },
@fn From<String> for Seq<String>::from
@ret r
    ensures
        cat(r.0@) == sbytes(text),
        lines_ok(r.0@),
@collect 1 boxed
    invariant_except_break
        good(vx_it),
        cat(vx_out@) + vstd::utf8::encode_utf8(joined(rem(vx_it))) == sbytes(text),
        forall|i: int| 0 <= i < rem(vx_it).len() ==> piece_of(#[trigger] rem(vx_it)[i]@, '\n', i == rem(vx_it).len() - 1),
        forall|i: int| 0 <= i < vx_out@.len() ==> line_ok(sbytes(#[trigger] vx_out@[i]), i == vx_out@.len() - 1 && rem(vx_it).len() == 0),
    ensures
        cat(vx_out@) == sbytes(text),
        lines_ok(vx_out@),
    decreases fuel(vx_it),
@ghost collect 1 before
    proof {
        assert(cat(vx_out@) + sbytes(text) =~= sbytes(text));
    }
@ghost collect 1 start
    let ghost vx_prev = vx_out@;
    let ghost vx_before = vx_it;
@ghost collect 1 item
    proof {
        assert(rem(vx_before) =~= VSeq::empty().push(s) + rem(vx_it));
        lemma_joined_first(s, rem(vx_it));
        lemma_piece(s@, rem(vx_it).len() == 0);
        lemma_cat_push(vx_prev, vx_item);
        vstd::utf8::encode_utf8_concat(s@, joined(rem(vx_it)));
        assert(vx_item@ == s@);
        assert(cat(vx_prev) + (sbytes(vx_item) + vstd::utf8::encode_utf8(joined(rem(vx_it))))
            =~= (cat(vx_prev) + sbytes(vx_item)) + vstd::utf8::encode_utf8(joined(rem(vx_it))));
    }
@ghost collect 1 none
    proof {
        assert(joined(rem(vx_it)) =~= VSeq::<char>::empty());
        assert(cat(vx_out@) + vstd::utf8::encode_utf8(VSeq::<char>::empty()) =~= cat(vx_out@));
    }
@fn From<&str> for Seq<String>::from
@ret r
    ensures
        cat(r.0@) == vstd::utf8::encode_utf8(arg@),
        lines_ok(r.0@),
@fn From<Vec<u8>> for Seq<u8>::from
@ret r
    ensures
        r.0@ == bytes@,
@fn From<&[u8]> for Seq<u8>::from
@ret r
    ensures
        r.0@ == bytes@,
@item trait ContentItemIndices
spec fn sp_idx(&self, item: T) -> Option<VSeq<usize>>;
@fn trait ContentItemIndices::generate_from
@ret r
    requires
        item_ok::<T>(),
    ensures
        forall|x: T| idx_ok(sequence.0@, x, #[trigger] (*r).sp_idx(x)),
@fn trait ContentItemIndices::indices
@ret r
    ensures
        r.is_some() == self.sp_idx(*item).is_some(),
        r.is_some() ==> r.unwrap()@ == self.sp_idx(*item).unwrap(),
@item impl ContentItemIndices<String> for StringItemIndices
open spec fn sp_idx(&self, item: String) -> Option<VSeq<usize>> {
    map_idx(self.0@, item)
}
@fn ContentItemIndices<String> for StringItemIndices::generate_from
@ghost start
    proof {
        ax_string_key();
        ax_len_strings(sequence.0);
    }
@loop 1 it
    invariant
        good(it.iter),
        it.seq().len() == sequence.0@.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == sequence.0@[k],
        forall|x: String| idx_ok(sequence.0@.take(it.index()), x, #[trigger] map_idx(map@, x)),
@ghost loop 1 start
    let ghost vx_m = map@;
    proof { ax_string_key(); }
@ghost loop 1 end
    proof {
        assert forall|x: String| idx_ok(sequence.0@.take(it.index() + 1), x, #[trigger] map_idx(map@, x)) by {
            lemma_idx_push(sequence.0@, it.index(), x, map_idx(vx_m, x), map_idx(map@, x));
        }
    }
@ghost end
    proof { assert(sequence.0@.take(sequence.0@.len() as int) =~= sequence.0@); }
@fn ContentItemIndices<String> for StringItemIndices::indices
@ghost start
    proof { ax_string_key(); }
@item impl ContentItemIndices<u8> for ByteItemIndices
open spec fn sp_idx(&self, item: u8) -> Option<VSeq<usize>> {
    arr_idx(self.0@, item)
}
@fn ContentItemIndices<u8> for ByteItemIndices::generate_from
@ghost start
    proof { ax_len_bytes(sequence.0); }
@loop 1 it
    invariant
        good(it.iter),
        it.seq().len() == sequence.0@.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == sequence.0@[k],
        forall|x: u8| idx_ok(sequence.0@.take(it.index()), x, #[trigger] arr_idx(indices@, x)),
@ghost loop 1 start
    let ghost vx_a = indices@;
@ghost loop 1 end
    proof {
        assert forall|x: u8| idx_ok(sequence.0@.take(it.index() + 1), x, #[trigger] arr_idx(indices@, x)) by {
            lemma_idx_push(sequence.0@, it.index(), x, arr_idx(vx_a, x), arr_idx(indices@, x));
        }
    }
@ghost end
    proof { assert(sequence.0@.take(sequence.0@.len() as int) =~= sequence.0@); }
@fn ContentItemIndices<u8> for ByteItemIndices::indices
@bottom
impl vstd::std_specs::convert::FromSpecImpl<Vec<u8>> for Seq<u8> {
    open spec fn obeys_from_spec() -> bool {
        false
    }

    open spec fn from_spec(v: Vec<u8>) -> Self {
        arbitrary()
    }
}

impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a [u8]> for Seq<u8> {
    open spec fn obeys_from_spec() -> bool {
        false
    }

    open spec fn from_spec(v: &'a [u8]) -> Self {
        arbitrary()
    }
}

impl vstd::std_specs::convert::FromSpecImpl<String> for Seq<String> {
    open spec fn obeys_from_spec() -> bool {
        false
    }

    open spec fn from_spec(v: String) -> Self {
        arbitrary()
    }
}

impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Seq<String> {
    open spec fn obeys_from_spec() -> bool {
        false
    }

    open spec fn from_spec(v: &'a str) -> Self {
        arbitrary()
    }
}

pub open spec fn map_idx(m: Map<String, Vec<usize>>, x: String) -> Option<VSeq<usize>> {
    if m.contains_key(x) { Some(m[x]@) } else { None }
}

pub open spec fn arr_idx(a: VSeq<Vec<usize>>, x: u8) -> Option<VSeq<usize>> {
    if a[x as int]@.len() > 0 { Some(a[x as int]@) } else { None }
}
@item trait WriteDataInto
spec fn sp_count(&self) -> int;
spec fn sp_bytes(&self, a: int, b: int) -> VSeq<u8>;
@fn trait WriteDataInto::write_into
@ret r
    requires
        range.0 <= range.1 <= self.sp_count(),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + self.sp_bytes(range.0 as int, range.1 as int),
@fn trait WriteDataInto::write_into_all_from
@ret r
    requires
        from <= self.sp_count(),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + self.sp_bytes(from as int, self.sp_count()),
@item impl WriteDataInto for Seq<u8>
open spec fn sp_count(&self) -> int {
    self.0@.len() as int
}
open spec fn sp_bytes(&self, a: int, b: int) -> VSeq<u8> {
    self.0@.subrange(a, b)
}
@fn WriteDataInto for Seq<u8>::write_into
@fn WriteDataInto for Seq<u8>::write_into_all_from
@item impl WriteDataInto for Seq<String>
open spec fn sp_count(&self) -> int {
    self.0@.len() as int
}
open spec fn sp_bytes(&self, a: int, b: int) -> VSeq<u8> {
    cat(self.0@.subrange(a, b))
}
@fn WriteDataInto for Seq<String>::write_into
@loop 1 it
    invariant
        (*into).sink() == (*old(into)).sink(),
        it.seq().len() == range.1 - range.0,
        range.0 <= range.1 <= self.0@.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.0@.subrange(range.0 as int, range.1 as int)[k],
        (*into).written() == (*old(into)).written() + cat(self.0@.subrange(range.0 as int, range.1 as int).take(it.index())),
@fn WriteDataInto for Seq<String>::write_into_all_from
@loop 1 it
    invariant
        (*into).sink() == (*old(into)).sink(),
        it.seq().len() == self.0@.len() - from,
        from <= self.0@.len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.0@.subrange(from as int, self.0@.len() as int)[k],
        (*into).written() == (*old(into)).written() + cat(self.0@.subrange(from as int, self.0@.len() as int).take(it.index())),
@item trait ConsumableSeqIfce
spec fn sp_data(&self) -> Seq<T>;
spec fn sp_consumed(&self) -> int;
@fn trait ConsumableSeqIfce::new
@ret r
    ensures
        r.sp_data() == *data,
        r.sp_consumed() == 0,
@fn trait ConsumableSeqIfce::data
@ret r
    ensures
        *r == self.sp_data(),
@fn trait ConsumableSeqIfce::consumed
@ret r
    ensures
        r == self.sp_consumed(),
@fn trait ConsumableSeqIfce::range_from
@ret r
    ensures
        r == Range(from, self.sp_data().0@.len() as usize),
@fn trait ConsumableSeqIfce::has_subsequence_at
@ret r
    requires
        item_ok::<T>(),
    ensures
        r == occurs(self.sp_data().0@, subsequence@, at as int),
@fn trait ConsumableSeqIfce::advance_consumed_by
    requires
        old(self).sp_consumed() + increment <= usize::MAX,
    ensures
        final(self).sp_data() == old(self).sp_data(),
        final(self).sp_consumed() == old(self).sp_consumed() + increment,
@fn trait ConsumableSeqIfce::write_into_upto
@ret r
    requires
        upto <= old(self).sp_data().sp_count(),
        old(self).sp_data().sp_count() == old(self).sp_data().0@.len(),
    ensures
        (*final(writer)).sink() == (*old(writer)).sink(),
        final(self).sp_data() == old(self).sp_data(),
        final(self).sp_consumed() == (if old(self).sp_consumed() < upto { upto as int } else { old(self).sp_consumed() }),
        r.is_ok() ==> (*final(writer)).written() == (*old(writer)).written() + (if old(self).sp_consumed() < upto {
            old(self).sp_data().sp_bytes(old(self).sp_consumed(), upto as int)
        } else {
            VSeq::empty()
        }),
@fn trait ConsumableSeqIfce::write_remainder
@ret r
    requires
        0 <= old(self).sp_consumed() <= old(self).sp_data().sp_count(),
        old(self).sp_data().sp_count() == old(self).sp_data().0@.len(),
    ensures
        (*final(writer)).sink() == (*old(writer)).sink(),
        r.is_ok() ==> (*final(writer)).written() == (*old(writer)).written() + old(self).sp_data().sp_bytes(
            old(self).sp_consumed(),
            old(self).sp_data().sp_count(),
        ),
@item impl ConsumableSeqIfce<T> for ConsumableSeq<T>
open spec fn sp_data(&self) -> Seq<T> {
    *self.sequence
}
open spec fn sp_consumed(&self) -> int {
    self.consumed as int
}
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::new
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::data
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::consumed
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::range_from
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::has_subsequence_at
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::advance_consumed_by
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::write_into_upto
@fn ConsumableSeqIfce<T> for ConsumableSeq<T>::write_remainder
