@module changes pw_diff_lib/src/changes.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::common_subsequence::*;
use crate::sequence::{ByteItemIndices, ContentItemIndices, Seq, StringItemIndices, idx_ok};
use std::collections::HashMap;
use std::iter::Peekable;
use std::ops::{Deref, DerefMut};
use std::slice::Iter;
use vstd::std_specs::cmp::PartialEqSpec;
broadcast use {vstd::std_specs::iter::group_iter_axioms, vstd::std_specs::hash::group_hash_axioms};
@top
/// ---------- common blocks ----------
/// both sides of the block hold equal items
pub open spec fn block<T>(b: VSeq<T>, a: VSeq<T>, c: CommonSubsequence) -> bool {
    &&& c.0 + c.2 <= b.len()
    &&& c.1 + c.2 <= a.len()
    &&& forall|k: int| 0 <= k < c.2 ==> #[trigger] b[c.0 + k] == a[c.1 + k]
}

pub open spec fn inside(c: CommonSubsequence, br: Range, ar: Range) -> bool {
    &&& br.0 <= c.0
    &&& c.0 + c.2 <= br.1
    &&& ar.0 <= c.1
    &&& c.1 + c.2 <= ar.1
}

pub open spec fn common<T>(b: VSeq<T>, a: VSeq<T>, j: int, i: int) -> bool {
    0 <= j < b.len() && 0 <= i < a.len() && b[j] == a[i]
}

pub open spec fn within_range(r: Range, j: int) -> bool {
    r.0 <= j < r.1
}

/// length of the common stretch ending at (j, i), looking back to (bs, s)
pub open spec fn suf<T>(b: VSeq<T>, a: VSeq<T>, bs: int, s: int, j: int, i: int) -> nat
    decreases j - bs + 1,
{
    if bs <= j && s <= i && common(b, a, j, i) {
        1 + suf(b, a, bs, s, j - 1, i - 1)
    } else {
        0
    }
}

pub proof fn lemma_suf<T>(b: VSeq<T>, a: VSeq<T>, bs: int, s: int, j: int, i: int)
    ensures
        suf(b, a, bs, s, j, i) > 0 <==> (bs <= j && s <= i && common(b, a, j, i)),
        suf(b, a, bs, s, j, i) > 0 ==> suf(b, a, bs, s, j, i) <= j - bs + 1 && suf(b, a, bs, s, j, i) <= i - s + 1,
        forall|k: int| 0 <= k < suf(b, a, bs, s, j, i) ==> #[trigger] b[j - k] == a[i - k],
    decreases j - bs + 1,
{
    if bs <= j && s <= i && common(b, a, j, i) {
        lemma_suf(b, a, bs, s, j - 1, i - 1);
        assert forall|k: int| 0 <= k < suf(b, a, bs, s, j, i) implies #[trigger] b[j - k] == a[i - k] by {
            if k > 0 {
                assert(b[(j - 1) - (k - 1)] == a[(i - 1) - (k - 1)]);
            }
        }
    }
}

pub proof fn lemma_suf_block<T>(b: VSeq<T>, a: VSeq<T>, bs: int, s: int, j: int, i: int, c: CommonSubsequence)
    requires
        0 <= bs,
        0 <= s,
        c.2 > 0,
        c.2 == suf(b, a, bs, s, j, i),
        c.0 + c.2 == j + 1,
        c.1 + c.2 == i + 1,
    ensures
        block(b, a, c),
        bs <= c.0,
        s <= c.1,
{
    lemma_suf(b, a, bs, s, j, i);
    assert forall|k: int| 0 <= k < c.2 implies #[trigger] b[c.0 + k] == a[c.1 + k] by {
        assert(b[j - (c.2 - 1 - k)] == a[i - (c.2 - 1 - k)]);
    }
}

/// a block that starts inside is seen in full from its end
pub proof fn lemma_block_suf<T>(b: VSeq<T>, a: VSeq<T>, bs: int, s: int, c: CommonSubsequence, n: int)
    requires
        block(b, a, c),
        0 <= bs <= c.0,
        0 <= s <= c.1,
        0 < n <= c.2,
    ensures
        suf(b, a, bs, s, c.0 + n - 1, c.1 + n - 1) >= n,
    decreases n,
{
    assert(b[c.0 + (n - 1)] == a[c.1 + (n - 1)]);
    if n > 1 {
        lemma_block_suf(b, a, bs, s, c, n - 1);
    }
}

/// no common block of the two ranges is longer than `n`
pub open spec fn longest<T>(b: VSeq<T>, a: VSeq<T>, br: Range, ar: Range, n: int) -> bool {
    forall|d: CommonSubsequence| #![trigger block(b, a, d)] block(b, a, d) && inside(d, br, ar) ==> d.2 <= n
}

/// what the search must return
pub open spec fn lcs_ok<T>(b: VSeq<T>, a: VSeq<T>, br: Range, ar: Range, r: Option<CommonSubsequence>) -> bool {
    match r {
        Some(c) => c.2 > 0 && block(b, a, c) && inside(c, br, ar) && longest(b, a, br, ar, c.2 as int),
        None => forall|j: int, i: int|
            within_range(br, j) && within_range(ar, i) ==> !#[trigger] common(b, a, j, i),
    }
}

pub open spec fn best_ok<T>(b: VSeq<T>, a: VSeq<T>, br: Range, ar: Range, upto: int, c: CommonSubsequence) -> bool {
    &&& c.2 > 0 ==> block(b, a, c) && inside(c, br, ar)
    &&& forall|j: int, i: int|
        br.0 <= j < br.1 && ar.0 <= i < upto ==> #[trigger] suf(b, a, br.0 as int, ar.0 as int, j, i) <= c.2
}

/// the row of the dynamic programme for position `i` of the after side
pub open spec fn row_ok<T>(b: VSeq<T>, a: VSeq<T>, br: Range, s: int, i: int, m: Map<isize, usize>) -> bool {
    forall|j: isize| #![trigger m.contains_key(j)]
        (m.contains_key(j) <==> br.0 <= j < br.1 && suf(b, a, br.0 as int, s, j as int, i) > 0)
        && (m.contains_key(j) ==> m[j] == suf(b, a, br.0 as int, s, j as int, i))
}

/// the same, for the positions below `hi` only
pub open spec fn row_upto<T>(b: VSeq<T>, a: VSeq<T>, br: Range, s: int, i: int, hi: int, m: Map<isize, usize>) -> bool {
    forall|j: isize| #![trigger m.contains_key(j)]
        (m.contains_key(j) <==> br.0 <= j < br.1 && j < hi && suf(b, a, br.0 as int, s, j as int, i) > 0)
        && (m.contains_key(j) ==> m[j] == suf(b, a, br.0 as int, s, j as int, i))
}

/// ---------- sets of blocks and rectangles still to be searched ----------
pub open spec fn before(c: CommonSubsequence, d: CommonSubsequence) -> bool {
    c.bend() <= d.0 && c.aend() <= d.1
}

pub open spec fn apart(c: CommonSubsequence, d: CommonSubsequence) -> bool {
    before(c, d) || before(d, c)
}

/// the pair of positions lies before or behind the block on both sides
pub open spec fn free_of(c: CommonSubsequence, j: int, i: int) -> bool {
    (j < c.0 && i < c.1) || (c.bend() <= j && c.aend() <= i)
}

pub open spec fn compat(l: VSeq<CommonSubsequence>, j: int, i: int) -> bool {
    forall|k: int| 0 <= k < l.len() ==> free_of(#[trigger] l[k], j, i)
}

pub open spec fn rect_ok<T>(b: VSeq<T>, a: VSeq<T>, r: (Range, Range)) -> bool {
    r.0.0 <= r.0.1 <= b.len() && r.1.0 <= r.1.1 <= a.len()
}

pub open spec fn in_rect(r: (Range, Range), j: int, i: int) -> bool {
    r.0.0 <= j < r.0.1 && r.1.0 <= i < r.1.1
}

pub open spec fn rect_block(r: (Range, Range), c: CommonSubsequence) -> bool {
    (r.0.1 <= c.0 && r.1.1 <= c.1) || (c.bend() <= r.0.0 && c.aend() <= r.1.0)
}

pub open spec fn rect_rect(r: (Range, Range), q: (Range, Range)) -> bool {
    (r.0.1 <= q.0.0 && r.1.1 <= q.1.0) || (q.0.1 <= r.0.0 && q.1.1 <= r.1.0)
}

pub open spec fn rects_ok<T>(b: VSeq<T>, a: VSeq<T>, st: VSeq<(Range, Range)>, raw: VSeq<CommonSubsequence>) -> bool {
    &&& forall|k: int| 0 <= k < st.len() ==> rect_ok(b, a, #[trigger] st[k])
    &&& forall|k: int, l: int| 0 <= k < st.len() && 0 <= l < raw.len() ==> rect_block(#[trigger] st[k], #[trigger] raw[l])
    &&& forall|k: int, l: int| 0 <= k < l < st.len() ==> rect_rect(#[trigger] st[k], #[trigger] st[l])
}

pub open spec fn raw_ok<T>(b: VSeq<T>, a: VSeq<T>, raw: VSeq<CommonSubsequence>) -> bool {
    &&& forall|k: int| 0 <= k < raw.len() ==> (#[trigger] raw[k]).2 > 0 && block(b, a, raw[k])
    &&& forall|k: int, l: int| 0 <= k < l < raw.len() ==> apart(#[trigger] raw[k], #[trigger] raw[l])
}

/// every pair of equal items that could still be matched lies in one of the rectangles
pub open spec fn pending_ok<T>(b: VSeq<T>, a: VSeq<T>, st: VSeq<(Range, Range)>, raw: VSeq<CommonSubsequence>) -> bool {
    forall|j: int, i: int| #[trigger] common(b, a, j, i) && compat(raw, j, i) ==> exists|k: int| 0 <= k < st.len() && in_rect(#[trigger] st[k], j, i)
}

pub open spec fn weight(st: VSeq<(Range, Range)>) -> nat
    decreases st.len(),
{
    if st.len() == 0 {
        0
    } else {
        weight(st.drop_last()) + 1 + if st.last().0.1 > st.last().0.0 { 2 * (st.last().0.1 - st.last().0.0) as nat } else { 0 }
    }
}

pub proof fn lemma_weight_push(st: VSeq<(Range, Range)>, r: (Range, Range))
    ensures
        weight(st.push(r)) == weight(st) + 1 + if r.0.1 > r.0.0 { 2 * (r.0.1 - r.0.0) as nat } else { 0 },
{
    assert(st.push(r).drop_last() == st);
}

/// a rectangle without a common item can be dropped
pub proof fn lemma_rect_none<T>(b: VSeq<T>, a: VSeq<T>, st: VSeq<(Range, Range)>, r: (Range, Range), raw: VSeq<CommonSubsequence>)
    requires
        rects_ok(b, a, st.push(r), raw),
        pending_ok(b, a, st.push(r), raw),
        lcs_ok(b, a, r.0, r.1, None),
    ensures
        rects_ok(b, a, st, raw),
        pending_ok(b, a, st, raw),
{
    let old_st = st.push(r);
    assert forall|k: int| 0 <= k < st.len() implies st[k] == #[trigger] old_st[k] by {}
    assert forall|k: int| 0 <= k < st.len() implies rect_ok(b, a, #[trigger] st[k]) by {
        assert(rect_ok(b, a, old_st[k]));
    }
    assert forall|k: int, l: int| 0 <= k < st.len() && 0 <= l < raw.len() implies rect_block(#[trigger] st[k], #[trigger] raw[l]) by {
        assert(rect_block(old_st[k], raw[l]));
    }
    assert forall|k: int, l: int| 0 <= k < l < st.len() implies rect_rect(#[trigger] st[k], #[trigger] st[l]) by {
        assert(rect_rect(old_st[k], old_st[l]));
    }
    assert forall|j: int, i: int| #[trigger] common(b, a, j, i) && compat(raw, j, i) implies exists|k: int|
        0 <= k < st.len() && in_rect(#[trigger] st[k], j, i) by {
        let k = choose|k: int| 0 <= k < old_st.len() && in_rect(#[trigger] old_st[k], j, i);
        if k == st.len() {
            assert(within_range(r.0, j) && within_range(r.1, i));
            assert(false);
        }
        assert(in_rect(st[k], j, i));
    }
}

/// one more rectangle beside the others
pub proof fn lemma_rects_push<T>(b: VSeq<T>, a: VSeq<T>, st: VSeq<(Range, Range)>, r: (Range, Range), raw: VSeq<CommonSubsequence>)
    requires
        rects_ok(b, a, st, raw),
        rect_ok(b, a, r),
        forall|l: int| 0 <= l < raw.len() ==> rect_block(r, #[trigger] raw[l]),
        forall|k: int| 0 <= k < st.len() ==> rect_rect(#[trigger] st[k], r),
    ensures
        rects_ok(b, a, st.push(r), raw),
{
    let n = st.push(r);
    assert forall|k: int| 0 <= k < n.len() implies rect_ok(b, a, #[trigger] n[k]) by {
        if k < st.len() { assert(n[k] == st[k]); }
    }
    assert forall|k: int, l: int| 0 <= k < n.len() && 0 <= l < raw.len() implies rect_block(#[trigger] n[k], #[trigger] raw[l]) by {
        if k < st.len() { assert(rect_block(st[k], raw[l])); }
    }
    assert forall|k: int, l: int| 0 <= k < l < n.len() implies rect_rect(#[trigger] n[k], #[trigger] n[l]) by {
        if l < st.len() {
            assert(rect_rect(st[k], st[l]));
        } else {
            assert(rect_rect(st[k], r));
        }
    }
}

/// what is left of the stack once `c` was found in the topmost rectangle `r`
pub open spec fn after_split(st: VSeq<(Range, Range)>, r: (Range, Range), c: CommonSubsequence) -> VSeq<(Range, Range)> {
    let s1 = if r.0.0 < c.0 && r.1.0 < c.1 { st.push((Range(r.0.0, c.0), Range(r.1.0, c.1))) } else { st };
    if c.bend() < r.0.1 && c.aend() < r.1.1 {
        s1.push((Range(c.bend() as usize, r.0.1), Range(c.aend() as usize, r.1.1)))
    } else {
        s1
    }
}

pub proof fn lemma_rect_some<T>(b: VSeq<T>, a: VSeq<T>, st: VSeq<(Range, Range)>, r: (Range, Range), raw: VSeq<CommonSubsequence>, c: CommonSubsequence)
    requires
        rects_ok(b, a, st.push(r), raw),
        raw_ok(b, a, raw),
        pending_ok(b, a, st.push(r), raw),
        c.2 > 0,
        block(b, a, c),
        inside(c, r.0, r.1),
    ensures
        rects_ok(b, a, after_split(st, r, c), raw.push(c)),
        raw_ok(b, a, raw.push(c)),
        pending_ok(b, a, after_split(st, r, c), raw.push(c)),
        weight(after_split(st, r, c)) < weight(st.push(r)),
{
    let old_st = st.push(r);
    let raw2 = raw.push(c);
    assert(old_st[st.len() as int] == r);
    assert(rect_ok(b, a, r));
    // the rest of the stack
    assert forall|k: int| 0 <= k < st.len() implies rect_ok(b, a, #[trigger] st[k]) by {
        assert(rect_ok(b, a, old_st[k]));
    }
    assert forall|k: int, l: int| 0 <= k < st.len() && 0 <= l < raw2.len() implies rect_block(#[trigger] st[k], #[trigger] raw2[l]) by {
        if l < raw.len() {
            assert(rect_block(old_st[k], raw[l]));
        } else {
            assert(rect_rect(old_st[k], old_st[st.len() as int]));
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < st.len() implies rect_rect(#[trigger] st[k], #[trigger] st[l]) by {
        assert(rect_rect(old_st[k], old_st[l]));
    }
    assert(rects_ok(b, a, st, raw2));
    assert forall|k: int| 0 <= k < st.len() implies rect_rect(#[trigger] st[k], r) by {
        assert(rect_rect(old_st[k], old_st[st.len() as int]));
    }
    assert forall|l: int| 0 <= l < raw.len() implies rect_block(r, #[trigger] raw2[l]) by {
        assert(rect_block(old_st[st.len() as int], raw[l]));
    }
    // the blocks
    assert forall|k: int| 0 <= k < raw2.len() implies (#[trigger] raw2[k]).2 > 0 && block(b, a, raw2[k]) by {
        if k < raw.len() { assert(raw2[k] == raw[k]); }
    }
    assert forall|k: int, l: int| 0 <= k < l < raw2.len() implies apart(#[trigger] raw2[k], #[trigger] raw2[l]) by {
        if l < raw.len() {
            assert(apart(raw[k], raw[l]));
        } else {
            assert(rect_block(old_st[st.len() as int], raw[k]));
        }
    }
    // the new rectangles
    let r1 = (Range(r.0.0, c.0), Range(r.1.0, c.1));
    let r2 = (Range(c.bend() as usize, r.0.1), Range(c.aend() as usize, r.1.1));
    let s1 = if r.0.0 < c.0 && r.1.0 < c.1 { st.push(r1) } else { st };
    let s2 = after_split(st, r, c);
    lemma_weight_push(st, r);
    lemma_weight_push(st, r1);
    lemma_weight_push(s1, r2);
    if r.0.0 < c.0 && r.1.0 < c.1 {
        assert forall|l: int| 0 <= l < raw2.len() implies rect_block(r1, #[trigger] raw2[l]) by {}
        lemma_rects_push(b, a, st, r1, raw2);
    }
    assert(rects_ok(b, a, s1, raw2));
    if c.bend() < r.0.1 && c.aend() < r.1.1 {
        assert forall|l: int| 0 <= l < raw2.len() implies rect_block(r2, #[trigger] raw2[l]) by {}
        assert forall|k: int| 0 <= k < s1.len() implies rect_rect(#[trigger] s1[k], r2) by {
            if k < st.len() { assert(s1[k] == st[k]); }
        }
        lemma_rects_push(b, a, s1, r2, raw2);
    }
    assert forall|j: int, i: int| #[trigger] common(b, a, j, i) && compat(raw2, j, i) implies exists|k: int|
        0 <= k < s2.len() && in_rect(#[trigger] s2[k], j, i) by {
        assert forall|k: int| 0 <= k < raw.len() implies free_of(#[trigger] raw[k], j, i) by {
            assert(raw2[k] == raw[k]);
        }
        let k = choose|k: int| 0 <= k < old_st.len() && in_rect(#[trigger] old_st[k], j, i);
        if k < st.len() {
            assert(s2[k] == st[k]);
        } else {
            assert(free_of(raw2[raw.len() as int], j, i));
            if j < c.0 {
                assert(s2[st.len() as int] == r1);
            } else {
                assert(s2[s1.len() as int] == r2);
            }
        }
    }
}

/// ---------- the ordered list of common blocks ----------
pub open spec fn chain(l: VSeq<CommonSubsequence>) -> bool {
    forall|k: int, m: int| 0 <= k < m < l.len() ==> before(#[trigger] l[k], #[trigger] l[m])
}

pub open spec fn touch(c: CommonSubsequence, d: CommonSubsequence) -> bool {
    c.bend() == d.0 && c.aend() == d.1
}

pub open spec fn blocks_ok<T>(b: VSeq<T>, a: VSeq<T>, l: VSeq<CommonSubsequence>) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).2 > 0 && block(b, a, l[k])
    &&& chain(l)
}

/// no pair of equal items could be added to the list
pub open spec fn complete<T>(b: VSeq<T>, a: VSeq<T>, l: VSeq<CommonSubsequence>) -> bool {
    forall|j: int, i: int| #[trigger] common(b, a, j, i) ==> !compat(l, j, i)
}

/// what the list of common blocks must be
pub open spec fn lcses_ok<T>(b: VSeq<T>, a: VSeq<T>, l: VSeq<CommonSubsequence>) -> bool {
    &&& blocks_ok(b, a, l)
    &&& forall|k: int| 0 <= k < l.len() - 1 ==> !touch(#[trigger] l[k], l[k + 1])
    &&& complete(b, a, l)
}

pub proof fn lemma_sorted<T>(b: VSeq<T>, a: VSeq<T>, raw: VSeq<CommonSubsequence>, s: VSeq<CommonSubsequence>)
    requires
        raw_ok(b, a, raw),
        pending_ok(b, a, VSeq::empty(), raw),
        sorted_of(raw, s),
    ensures
        blocks_ok(b, a, s),
        complete(b, a, s),
{
    let (p, q) = choose|p: VSeq<int>, q: VSeq<int>| #[trigger] permuted_by(raw, s, p, q);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).2 > 0 && block(b, a, s[k]) by {
        assert(s[k] == raw[p[k]]);
    }
    assert forall|k: int, m: int| 0 <= k < m < s.len() implies before(#[trigger] s[k], #[trigger] s[m]) by {
        assert(s[k] == raw[p[k]]);
        assert(s[m] == raw[p[m]]);
        assert(q[p[k]] == k);
        assert(q[p[m]] == m);
        assert(p[k] != p[m]);
        assert(apart(raw[p[k]], raw[p[m]]));
        assert(lex_le(s[k], s[m]));
    }
    assert forall|j: int, i: int| #[trigger] common(b, a, j, i) implies !compat(s, j, i) by {
        if compat(s, j, i) {
            assert forall|m: int| 0 <= m < raw.len() implies free_of(#[trigger] raw[m], j, i) by {
                assert(s[q[m]] == raw[m]);
                assert(free_of(s[q[m]], j, i));
            }
            assert(compat(raw, j, i));
        }
    }
}

pub open spec fn part_of(c: CommonSubsequence, d: CommonSubsequence) -> bool {
    d.0 <= c.0 && c.bend() <= d.bend() && d.1 <= c.1 && c.aend() <= d.aend()
}

pub open spec fn covered(c: CommonSubsequence, l: VSeq<CommonSubsequence>) -> bool {
    exists|m: int| 0 <= m < l.len() && part_of(c, #[trigger] l[m])
}

/// the first `n` blocks of `raw` are merged into `l`
pub open spec fn merged<T>(b: VSeq<T>, a: VSeq<T>, raw: VSeq<CommonSubsequence>, n: int, l: VSeq<CommonSubsequence>) -> bool {
    &&& 0 <= n <= raw.len()
    &&& blocks_ok(b, a, l)
    &&& forall|k: int| 0 <= k < l.len() - 1 ==> !touch(#[trigger] l[k], l[k + 1])
    &&& forall|k: int| 0 <= k < n ==> covered(#[trigger] raw[k], l)
    &&& n == 0 ==> l.len() == 0
    &&& n > 0 ==> l.len() > 0 && l.last().bend() == raw[n - 1].bend() && l.last().aend() == raw[n - 1].aend()
    &&& n > 0 && n < raw.len() ==> !touch(l.last(), raw[n])
}

/// the blocks `from..n` of `raw` follow each other without gap and make up `c`
pub open spec fn joined<T>(b: VSeq<T>, a: VSeq<T>, raw: VSeq<CommonSubsequence>, from: int, n: int, c: CommonSubsequence) -> bool {
    &&& 0 <= from < n <= raw.len()
    &&& c.2 > 0
    &&& block(b, a, c)
    &&& c.0 == raw[from].0 && c.1 == raw[from].1
    &&& c.bend() == raw[n - 1].bend() && c.aend() == raw[n - 1].aend()
    &&& forall|k: int| from <= k < n ==> part_of(#[trigger] raw[k], c)
}

pub proof fn lemma_merged_push<T>(b: VSeq<T>, a: VSeq<T>, raw: VSeq<CommonSubsequence>, from: int, n: int, l: VSeq<CommonSubsequence>, c: CommonSubsequence)
    requires
        blocks_ok(b, a, raw),
        merged(b, a, raw, from, l),
        joined(b, a, raw, from, n, c),
        n < raw.len() ==> !touch(c, raw[n]),
    ensures
        merged(b, a, raw, n, l.push(c)),
{
    let l2 = l.push(c);
    assert forall|k: int| 0 <= k < n implies covered(#[trigger] raw[k], l2) by {
        if k < from {
            let m = choose|m: int| 0 <= m < l.len() && part_of(raw[k], #[trigger] l[m]);
            assert(l2[m] == l[m]);
        } else {
            assert(part_of(raw[k], l2[l.len() as int]));
        }
    }
    assert forall|k: int, m: int| 0 <= k < m < l2.len() implies before(#[trigger] l2[k], #[trigger] l2[m]) by {
        if m < l.len() {
            assert(before(l[k], l[m]));
        } else {
            assert(before(raw[from - 1], raw[from]));
            if k < l.len() - 1 {
                assert(before(l[k], l[l.len() - 1]));
                assert(l[l.len() - 1].2 > 0);
            }
        }
    }
    assert forall|k: int| 0 <= k < l2.len() implies (#[trigger] l2[k]).2 > 0 && block(b, a, l2[k]) by {
        if k < l.len() { assert(l2[k] == l[k]); }
    }
    assert forall|k: int| 0 <= k < l2.len() - 1 implies !touch(#[trigger] l2[k], l2[k + 1]) by {
        if k < l.len() - 1 {
            assert(l2[k] == l[k]);
            assert(l2[k + 1] == l[k + 1]);
        } else {
            assert(l2[k] == l.last());
        }
    }
}

pub proof fn lemma_joined_more<T>(b: VSeq<T>, a: VSeq<T>, raw: VSeq<CommonSubsequence>, from: int, n: int, c: CommonSubsequence, c2: CommonSubsequence)
    requires
        blocks_ok(b, a, raw),
        joined(b, a, raw, from, n, c),
        n < raw.len(),
        touch(c, raw[n]),
        c2.0 == c.0,
        c2.1 == c.1,
        c2.2 == c.2 + raw[n].2,
    ensures
        joined(b, a, raw, from, n + 1, c2),
{
    let d = raw[n];
    assert(block(b, a, d));
    assert forall|k: int| 0 <= k < c2.2 implies #[trigger] b[c2.0 + k] == a[c2.1 + k] by {
        if k < c.2 {
            assert(b[c.0 + k] == a[c.1 + k]);
        } else {
            let m = k - c.2;
            assert(b[d.0 + m] == a[d.1 + m]);
        }
    }
    assert forall|k: int| from <= k < n + 1 implies part_of(#[trigger] raw[k], c2) by {
        if k < n { assert(part_of(raw[k], c)); }
    }
}

pub proof fn lemma_merged_all<T>(b: VSeq<T>, a: VSeq<T>, raw: VSeq<CommonSubsequence>, l: VSeq<CommonSubsequence>)
    requires
        blocks_ok(b, a, raw),
        complete(b, a, raw),
        merged(b, a, raw, raw.len() as int, l),
    ensures
        lcses_ok(b, a, l),
{
    assert forall|j: int, i: int| #[trigger] common(b, a, j, i) implies !compat(l, j, i) by {
        if compat(l, j, i) {
            assert forall|k: int| 0 <= k < raw.len() implies free_of(#[trigger] raw[k], j, i) by {
                assert(covered(raw[k], l));
                let m = choose|m: int| 0 <= m < l.len() && part_of(raw[k], #[trigger] l[m]);
                assert(free_of(l[m], j, i));
            }
            assert(compat(raw, j, i));
        }
    }
}

/// ---------- change lists ----------
pub open spec fn is_nc(c: Change) -> bool {
    match c {
        Change::NoChange(_) => true,
        _ => false,
    }
}

pub open spec fn nothing_common<T>(b: VSeq<T>, a: VSeq<T>, r: Range, q: Range) -> bool {
    forall|j: int, i: int| within_range(r, j) && within_range(q, i) ==> !#[trigger] common(b, a, j, i)
}

/// one entry of a change list: not empty, inside both inputs, and true
pub open spec fn entry_ok<T>(b: VSeq<T>, a: VSeq<T>, c: Change) -> bool {
    match c {
        Change::NoChange(x) => x.2 > 0 && x.fits() && block(b, a, x),
        Change::Delete(r, s) => r.0 < r.1 <= b.len() && s <= a.len(),
        Change::Insert(s, r) => s <= b.len() && r.0 < r.1 <= a.len(),
        Change::Replace(r, q) => r.0 < r.1 <= b.len() && q.0 < q.1 <= a.len() && nothing_common(b, a, r, q),
    }
}

/// position reached in the before (or after) input once the first `k` entries are read, having started at `p`
pub open spec fn pos(cs: VSeq<Change>, k: int, p: int, reverse: bool) -> int {
    if k <= 0 { p } else { cs[k - 1].sp_end(reverse) }
}

/// each entry starts where the one before it ended
pub open spec fn tiled(cs: VSeq<Change>, p0: int, p1: int) -> bool {
    forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).sp_start(false) == pos(cs, k, p0, false) && cs[k].sp_start(true) == pos(cs, k, p1, true)
}

pub open spec fn alternating(cs: VSeq<Change>) -> bool {
    forall|k: int| 0 <= k < cs.len() - 1 ==> is_nc(#[trigger] cs[k]) != is_nc(cs[k + 1])
}

/// a change list for the first `i` items of `b` and the first `j` items of `a`
pub open spec fn script_to<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>, i: int, j: int) -> bool {
    &&& forall|k: int| 0 <= k < cs.len() ==> entry_ok(b, a, #[trigger] cs[k])
    &&& tiled(cs, 0, 0)
    &&& alternating(cs)
    &&& pos(cs, cs.len() as int, 0, false) == i
    &&& pos(cs, cs.len() as int, 0, true) == j
}

/// what the list of changes must be
pub open spec fn script_ok<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>) -> bool {
    script_to(b, a, cs, b.len() as int, a.len() as int)
}

pub proof fn lemma_script_push<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>, i: int, j: int, c: Change)
    requires
        script_to(b, a, cs, i, j),
        entry_ok(b, a, c),
        c.sp_start(false) == i,
        c.sp_start(true) == j,
        cs.len() > 0 ==> is_nc(cs.last()) != is_nc(c),
    ensures
        script_to(b, a, cs.push(c), c.sp_end(false), c.sp_end(true)),
{
    let n = cs.push(c);
    assert forall|k: int| 0 <= k < n.len() implies entry_ok(b, a, #[trigger] n[k]) by {
        if k < cs.len() { assert(n[k] == cs[k]); }
    }
    assert forall|k: int| 0 <= k < n.len() implies (#[trigger] n[k]).sp_start(false) == pos(n, k, 0, false) && n[k].sp_start(true) == pos(n, k, 0, true) by {
        if k < cs.len() {
            assert(n[k] == cs[k]);
        }
        if k > 0 { assert(n[k - 1] == cs[k - 1]); }
    }
    assert forall|k: int| 0 <= k < n.len() - 1 implies is_nc(#[trigger] n[k]) != is_nc(n[k + 1]) by {
        assert(n[k] == cs[k]);
        if k + 1 < cs.len() { assert(n[k + 1] == cs[k + 1]); }
    }
}

/// between two neighbours of the list of common blocks nothing is common
pub proof fn lemma_gap<T>(b: VSeq<T>, a: VSeq<T>, l: VSeq<CommonSubsequence>, n: int, r: Range, q: Range)
    requires
        lcses_ok(b, a, l),
        0 <= n <= l.len(),
        n > 0 ==> r.0 >= l[n - 1].bend() && q.0 >= l[n - 1].aend(),
        n < l.len() ==> r.1 <= l[n].0 && q.1 <= l[n].1,
    ensures
        nothing_common(b, a, r, q),
{
    assert forall|j: int, i: int| within_range(r, j) && within_range(q, i) implies !#[trigger] common(b, a, j, i) by {
        assert forall|k: int| 0 <= k < l.len() implies free_of(#[trigger] l[k], j, i) by {
            if k < n - 1 {
                assert(before(l[k], l[n - 1]));
            } else if k > n {
                assert(before(l[n], l[k]));
            }
        }
        assert(compat(l, j, i));
    }
}

/// the same behind the last one
pub proof fn lemma_gap_end<T>(b: VSeq<T>, a: VSeq<T>, l: VSeq<CommonSubsequence>, n: int, r: Range, q: Range)
    requires
        lcses_ok(b, a, l),
        0 <= n <= l.len(),
        n > 0 ==> r.0 >= l[n - 1].bend() && q.0 >= l[n - 1].aend(),
    ensures
        n == l.len() ==> nothing_common(b, a, r, q),
{
    if n == l.len() {
        lemma_gap(b, a, l, n, r, q);
    }
}

/// reading the list left to right: the before input
pub open spec fn read_before<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>) -> VSeq<T>
    decreases cs.len(),
{
    if cs.len() == 0 {
        VSeq::empty()
    } else {
        read_before(b, a, cs.drop_last()) + match cs.last() {
            Change::NoChange(x) => a.subrange(x.1 as int, x.aend()),
            Change::Delete(r, _) => b.subrange(r.0 as int, r.1 as int),
            Change::Insert(_, _) => VSeq::empty(),
            Change::Replace(r, _) => b.subrange(r.0 as int, r.1 as int),
        }
    }
}

/// reading the list left to right: the after input
pub open spec fn read_after<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>) -> VSeq<T>
    decreases cs.len(),
{
    if cs.len() == 0 {
        VSeq::empty()
    } else {
        read_after(b, a, cs.drop_last()) + match cs.last() {
            Change::NoChange(x) => b.subrange(x.0 as int, x.bend()),
            Change::Delete(_, _) => VSeq::empty(),
            Change::Insert(_, r) => a.subrange(r.0 as int, r.1 as int),
            Change::Replace(_, r) => a.subrange(r.0 as int, r.1 as int),
        }
    }
}

pub proof fn lemma_entry_order<T>(b: VSeq<T>, a: VSeq<T>, c: Change)
    requires
        entry_ok(b, a, c),
    ensures
        0 <= c.sp_start(false) <= c.sp_end(false) <= b.len(),
        0 <= c.sp_start(true) <= c.sp_end(true) <= a.len(),
{
}

pub proof fn lemma_script_front<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>, i: int, j: int)
    requires
        script_to(b, a, cs, i, j),
        cs.len() > 0,
    ensures
        script_to(b, a, cs.drop_last(), cs.last().sp_start(false), cs.last().sp_start(true)),
{
    let d = cs.drop_last();
    let c = cs.last();
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] == cs[k] by {}
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).sp_start(false) == pos(d, k, 0, false) && d[k].sp_start(true) == pos(d, k, 0, true) by {
        assert(cs[k] == d[k]);
        if k > 0 { assert(cs[k - 1] == d[k - 1]); }
    }
    assert forall|k: int| 0 <= k < d.len() - 1 implies is_nc(#[trigger] d[k]) != is_nc(d[k + 1]) by {
        assert(cs[k] == d[k]);
        assert(cs[k + 1] == d[k + 1]);
    }
    assert(cs[cs.len() - 1] == c);
    if d.len() > 0 {
        assert(d[d.len() - 1] == cs[cs.len() - 2]);
    }
}

/// C01: the unchanged stretches taken from the other side, the list rebuilds either input
pub proof fn theorem_rebuild<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>, i: int, j: int)
    requires
        script_to(b, a, cs, i, j),
    ensures
        0 <= i <= b.len(),
        0 <= j <= a.len(),
        read_before(b, a, cs) == b.take(i),
        read_after(b, a, cs) == a.take(j),
    decreases cs.len(),
{
    if cs.len() == 0 {
        assert(b.take(0) =~= VSeq::<T>::empty());
        assert(a.take(0) =~= VSeq::<T>::empty());
    } else {
        let d = cs.drop_last();
        let c = cs.last();
        let i0 = c.sp_start(false);
        let j0 = c.sp_start(true);
        lemma_script_front(b, a, cs, i, j);
        theorem_rebuild(b, a, d, i0, j0);
        lemma_rebuild_last(b, a, cs, i, j);
    }
}

pub proof fn lemma_rebuild_last<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>, i: int, j: int)
    requires
        script_to(b, a, cs, i, j),
        cs.len() > 0,
        read_before(b, a, cs.drop_last()) == b.take(cs.last().sp_start(false)),
        read_after(b, a, cs.drop_last()) == a.take(cs.last().sp_start(true)),
        0 <= cs.last().sp_start(false) <= b.len(),
        0 <= cs.last().sp_start(true) <= a.len(),
    ensures
        0 <= i <= b.len(),
        0 <= j <= a.len(),
        read_before(b, a, cs) == b.take(i),
        read_after(b, a, cs) == a.take(j),
{
    let c = cs.last();
    let i0 = c.sp_start(false);
    let j0 = c.sp_start(true);
    assert(cs[cs.len() - 1] == c);
    lemma_entry_order(b, a, c);
    assert(b.take(i) =~= b.take(i0) + b.subrange(i0, i));
    assert(a.take(j) =~= a.take(j0) + a.subrange(j0, j));
    match c {
        Change::NoChange(x) => {
            let u = a.subrange(x.1 as int, x.aend());
            let w = b.subrange(x.0 as int, x.bend());
            assert forall|k: int| 0 <= k < x.2 implies #[trigger] u[k] == w[k] by {
                assert(b[x.0 + k] == a[x.1 + k]);
            }
            assert(u =~= w);
        },
        Change::Delete(r, s) => { assert(a.subrange(j0, j) =~= VSeq::<T>::empty()); },
        Change::Insert(s, r) => { assert(b.subrange(i0, i) =~= VSeq::<T>::empty()); },
        Change::Replace(r, q) => {},
    }
}

/// ---------- clumps ----------
/// the items the references point to
pub open spec fn vals(s: VSeq<&Change>) -> VSeq<Change> {
    VSeq::new(s.len(), |k: int| *s[k])
}

/// the deletions, insertions and replacements of a list, in order
pub open spec fn nonnc(cs: VSeq<Change>) -> VSeq<Change>
    decreases cs.len(),
{
    if cs.len() == 0 {
        VSeq::empty()
    } else if is_nc(cs.last()) {
        nonnc(cs.drop_last())
    } else {
        nonnc(cs.drop_last()).push(cs.last())
    }
}

pub proof fn lemma_nonnc_push(cs: VSeq<Change>, c: Change)
    ensures
        nonnc(cs.push(c)) == (if is_nc(c) { nonnc(cs) } else { nonnc(cs).push(c) }),
{
    assert(cs.push(c).drop_last() == cs);
}

pub proof fn lemma_nonnc_add(x: VSeq<Change>, y: VSeq<Change>)
    ensures
        nonnc(x + y) == nonnc(x) + nonnc(y),
    decreases y.len(),
{
    if y.len() == 0 {
        assert(x + y =~= x);
        assert(nonnc(x) + nonnc(y) =~= nonnc(x));
    } else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        lemma_nonnc_add(x, y.drop_last());
        assert(nonnc(x + y) =~= nonnc(x) + nonnc(y));
    }
}

/// from (p0, p1) to (q0, q1) the two inputs run in parallel and are equal
pub open spec fn gap<T>(b: VSeq<T>, a: VSeq<T>, p0: int, p1: int, q0: int, q1: int) -> bool {
    &&& 0 <= p0 <= q0 <= b.len()
    &&& 0 <= p1 <= q1 <= a.len()
    &&& q0 - p0 == q1 - p1
    &&& forall|k: int| 0 <= k < q0 - p0 ==> #[trigger] b[p0 + k] == a[p1 + k]
}

/// an entry of a clump: as in a change list, but an unchanged stretch may be empty
pub open spec fn piece_ok<T>(b: VSeq<T>, a: VSeq<T>, c: Change) -> bool {
    match c {
        Change::NoChange(x) => x.fits() && block(b, a, x),
        _ => entry_ok(b, a, c),
    }
}

pub open spec fn nc_len(c: Change) -> int {
    match c {
        Change::NoChange(x) => x.2 as int,
        _ => 0,
    }
}

/// the stretch of the inputs a list of entries covers
pub open spec fn start_of(cs: VSeq<Change>, reverse: bool) -> int {
    cs[0].sp_start(reverse)
}

pub open spec fn end_of(cs: VSeq<Change>, reverse: bool) -> int {
    cs[cs.len() - 1].sp_end(reverse)
}

/// a list of entries for one contiguous stretch, starting with `n` unchanged items unless the
/// inputs start here
#[verifier::opaque]
pub open spec fn stretch_ok<T>(b: VSeq<T>, a: VSeq<T>, n: int, cs: VSeq<Change>) -> bool {
    &&& cs.len() > 0
    &&& forall|k: int| 0 <= k < cs.len() ==> piece_ok(b, a, #[trigger] cs[k])
    &&& tiled(cs, start_of(cs, false), start_of(cs, true))
    &&& is_nc(cs[0]) ==> nc_len(cs[0]) <= n
    &&& nc_len(cs[0]) == n || (start_of(cs, false) == 0 && start_of(cs, true) == 0)
}

/// what a clump must be
pub open spec fn clump_ok<T>(b: VSeq<T>, a: VSeq<T>, n: int, cs: VSeq<Change>) -> bool {
    &&& stretch_ok(b, a, n, cs)
    &&& nonnc(cs).len() > 0
    &&& is_nc(cs.last()) ==> nc_len(cs.last()) <= n
    &&& nc_len(cs.last()) == n || (end_of(cs, false) == b.len() && end_of(cs, true) == a.len())
}

/// the rest of a change list
#[verifier::opaque]
pub open spec fn tail_ok<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>) -> bool {
    cs.len() > 0 ==> {
        &&& forall|k: int| 0 <= k < cs.len() ==> entry_ok(b, a, #[trigger] cs[k])
        &&& tiled(cs, start_of(cs, false), start_of(cs, true))
        &&& alternating(cs)
        &&& end_of(cs, false) == b.len()
        &&& end_of(cs, true) == a.len()
    }
}

/// one more entry of the list taken over as it is
pub proof fn lemma_stretch_push<T>(b: VSeq<T>, a: VSeq<T>, n: int, cs: VSeq<Change>, c: Change)
    requires
        stretch_ok(b, a, n, cs),
        piece_ok(b, a, c),
        c.sp_start(false) == end_of(cs, false),
        c.sp_start(true) == end_of(cs, true),
    ensures
        stretch_ok(b, a, n, cs.push(c)),
        cs.len() > 0,
        start_of(cs.push(c), false) == start_of(cs, false),
        start_of(cs.push(c), true) == start_of(cs, true),
{
    reveal(stretch_ok);
    let m = cs.push(c);
    assert(m[0] == cs[0]);
    assert forall|k: int| 0 <= k < m.len() implies piece_ok(b, a, #[trigger] m[k]) by {
        if k < cs.len() { assert(m[k] == cs[k]); }
    }
    assert forall|k: int| 0 <= k < m.len() implies (#[trigger] m[k]).sp_start(false) == pos(m, k, start_of(m, false), false) && m[k].sp_start(
        true,
    ) == pos(m, k, start_of(m, true), true) by {
        if k < cs.len() { assert(m[k] == cs[k]); }
        if k > 0 { assert(m[k - 1] == cs[k - 1]); }
    }
}

pub proof fn lemma_stretch_one<T>(b: VSeq<T>, a: VSeq<T>, n: int, c: Change)
    requires
        piece_ok(b, a, c),
        nc_len(c) <= n,
        nc_len(c) == n || (c.sp_start(false) == 0 && c.sp_start(true) == 0),
    ensures
        stretch_ok(b, a, n, VSeq::empty().push(c)),
        VSeq::empty().push(c)[0] == c,
{
    reveal(stretch_ok);
    let m = VSeq::<Change>::empty().push(c);
    assert(m[0] == c);
}

/// a part of a common block is a common block
pub proof fn lemma_sub_block<T>(b: VSeq<T>, a: VSeq<T>, x: CommonSubsequence, y: CommonSubsequence)
    requires
        block(b, a, x),
        x.0 <= y.0,
        y.bend() <= x.bend(),
        y.0 - x.0 == y.1 - x.1,
    ensures
        block(b, a, y),
{
    assert forall|k: int| 0 <= k < y.2 implies #[trigger] b[y.0 + k] == a[y.1 + k] by {
        let m = y.0 - x.0 + k;
        assert(b[x.0 + m] == a[x.1 + m]);
    }
}

/// within a common block the inputs run in parallel
pub proof fn lemma_block_gap<T>(b: VSeq<T>, a: VSeq<T>, x: CommonSubsequence, from: int, to: int)
    requires
        block(b, a, x),
        0 <= from <= to <= x.2,
    ensures
        gap(b, a, x.0 + from, x.1 + from, x.0 + to, x.1 + to),
{
    assert forall|k: int| 0 <= k < to - from implies #[trigger] b[x.0 + from + k] == a[x.1 + from + k] by {
        assert(b[x.0 + (from + k)] == a[x.1 + (from + k)]);
    }
}

/// a list of clumps that covers the inputs up to (p0, p1)
pub open spec fn clumps_to<T>(b: VSeq<T>, a: VSeq<T>, n: int, l: VSeq<VSeq<Change>>, p0: int, p1: int) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> clump_ok(b, a, n, #[trigger] l[k])
    &&& forall|k: int| 0 <= k < l.len() - 1 ==> gap(
        b,
        a,
        end_of(#[trigger] l[k], false),
        end_of(l[k], true),
        start_of(l[k + 1], false),
        start_of(l[k + 1], true),
    )
    &&& l.len() > 0 ==> gap(b, a, 0, 0, start_of(l[0], false), start_of(l[0], true))
    &&& l.len() > 0 ==> gap(b, a, end_of(l.last(), false), end_of(l.last(), true), p0, p1)
    &&& l.len() == 0 ==> gap(b, a, 0, 0, p0, p1)
}

/// the changes of all clumps, in order
pub open spec fn all_nonnc(l: VSeq<VSeq<Change>>) -> VSeq<Change>
    decreases l.len(),
{
    if l.len() == 0 {
        VSeq::empty()
    } else {
        all_nonnc(l.drop_last()) + nonnc(l.last())
    }
}

/// what the clumps of a change list must be (C04)
pub open spec fn clumps_ok<T>(b: VSeq<T>, a: VSeq<T>, n: int, cs: VSeq<Change>, l: VSeq<VSeq<Change>>) -> bool {
    &&& clumps_to(b, a, n, l, b.len() as int, a.len() as int)
    &&& all_nonnc(l) == nonnc(cs)
}

pub proof fn lemma_gap_join<T>(b: VSeq<T>, a: VSeq<T>, p0: int, p1: int, q0: int, q1: int, r0: int, r1: int)
    requires
        gap(b, a, p0, p1, q0, q1),
        gap(b, a, q0, q1, r0, r1),
    ensures
        gap(b, a, p0, p1, r0, r1),
{
    assert forall|k: int| 0 <= k < r0 - p0 implies #[trigger] b[p0 + k] == a[p1 + k] by {
        if k >= q0 - p0 {
            let m = k - (q0 - p0);
            assert(b[q0 + m] == a[q1 + m]);
        }
    }
}

pub proof fn lemma_clumps_push<T>(b: VSeq<T>, a: VSeq<T>, n: int, l: VSeq<VSeq<Change>>, p0: int, p1: int, c: VSeq<Change>, q0: int, q1: int)
    requires
        clumps_to(b, a, n, l, p0, p1),
        clump_ok(b, a, n, c),
        gap(b, a, p0, p1, start_of(c, false), start_of(c, true)),
        gap(b, a, end_of(c, false), end_of(c, true), q0, q1),
    ensures
        clumps_to(b, a, n, l.push(c), q0, q1),
        all_nonnc(l.push(c)) == all_nonnc(l) + nonnc(c),
{
    let m = l.push(c);
    assert(m.drop_last() == l);
    if l.len() == 0 {
        lemma_gap_join(b, a, 0, 0, p0, p1, start_of(c, false), start_of(c, true));
    } else {
        lemma_gap_join(b, a, end_of(l.last(), false), end_of(l.last(), true), p0, p1, start_of(c, false), start_of(c, true));
        assert(m[0] == l[0]);
    }
    assert forall|k: int| 0 <= k < m.len() implies clump_ok(b, a, n, #[trigger] m[k]) by {
        if k < l.len() { assert(m[k] == l[k]); }
    }
    assert forall|k: int| 0 <= k < m.len() - 1 implies gap(
        b,
        a,
        end_of(#[trigger] m[k], false),
        end_of(m[k], true),
        start_of(m[k + 1], false),
        start_of(m[k + 1], true),
    ) by {
        assert(m[k] == l[k]);
        if k + 1 < l.len() { assert(m[k + 1] == l[k + 1]); }
    }
}

/// what is left of a change list while its clumps are cut; `stash` is the context before the next change
pub open spec fn rest_ok<T>(b: VSeq<T>, a: VSeq<T>, n: int, todo: VSeq<Change>, stash: Option<CommonSubsequence>) -> bool {
    &&& tail_ok(b, a, todo)
    &&& match stash {
        Some(x) => {
            &&& x.fits()
            &&& block(b, a, x)
            &&& x.2 == n
            &&& todo.len() > 0
            &&& !is_nc(todo[0])
            &&& x.bend() == start_of(todo, false)
            &&& x.aend() == start_of(todo, true)
        },
        None => todo.len() > 0 ==> start_of(todo, false) == 0 && start_of(todo, true) == 0,
    }
}

pub open spec fn rest_at<T>(b: VSeq<T>, a: VSeq<T>, todo: VSeq<Change>, stash: Option<CommonSubsequence>, reverse: bool) -> int {
    match stash {
        Some(x) => if reverse { x.1 as int } else { x.0 as int },
        None => if todo.len() > 0 { 0 } else if reverse { a.len() as int } else { b.len() as int },
    }
}

/// the first `k` entries of `todo` are read into `cs`
#[verifier::opaque]
pub open spec fn cut_inv<T>(b: VSeq<T>, a: VSeq<T>, n: int, todo: VSeq<Change>, stash: Option<CommonSubsequence>, k: int, cs: VSeq<Change>) -> bool {
    &&& n >= 0
    &&& rest_ok(b, a, n, todo, stash)
    &&& 0 <= k <= todo.len()
    &&& cs.len() == 0 ==> stash.is_none() && (k == 0 || (k == 1 && todo.len() == 1 && is_nc(todo[0])))
    &&& cs.len() > 0 ==> {
        &&& stretch_ok(b, a, n, cs)
        &&& k < todo.len() ==> end_of(cs, false) == todo[k].sp_start(false) && end_of(cs, true) == todo[k].sp_start(true)
        &&& k == todo.len() ==> end_of(cs, false) == b.len() && end_of(cs, true) == a.len()
        &&& gap(b, a, rest_at(b, a, todo, stash, false), rest_at(b, a, todo, stash, true), start_of(cs, false), start_of(cs, true))
        &&& k == todo.len() ==> !is_nc(cs.last())
        &&& k == 0 ==> stash.is_some()
    }
    &&& nonnc(cs) == nonnc(todo.take(k))
}

/// what `next` hands out and leaves behind
#[verifier::opaque]
pub open spec fn cut_done<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
    cs: VSeq<Change>,
    todo2: VSeq<Change>,
    stash2: Option<CommonSubsequence>,
) -> bool {
    &&& rest_ok(b, a, n, todo2, stash2)
    &&& if cs.len() == 0 {
        &&& nonnc(todo).len() == 0
        &&& gap(b, a, rest_at(b, a, todo, stash, false), rest_at(b, a, todo, stash, true), b.len() as int, a.len() as int)
    } else {
        &&& clump_ok(b, a, n, cs)
        &&& gap(b, a, rest_at(b, a, todo, stash, false), rest_at(b, a, todo, stash, true), start_of(cs, false), start_of(cs, true))
        &&& gap(b, a, end_of(cs, false), end_of(cs, true), rest_at(b, a, todo2, stash2, false), rest_at(b, a, todo2, stash2, true))
        &&& nonnc(todo) == nonnc(cs) + nonnc(todo2)
        &&& todo2.len() < todo.len()
    }
}

pub proof fn lemma_cut_start<T>(b: VSeq<T>, a: VSeq<T>, n: int, todo: VSeq<Change>, stash: Option<CommonSubsequence>, cs: VSeq<Change>)
    requires
        n >= 0,
        rest_ok(b, a, n, todo, stash),
        cs == (match stash { Some(x) => VSeq::empty().push(Change::NoChange(x)), None => VSeq::empty() }),
    ensures
        cut_inv(b, a, n, todo, stash, 0, cs),
{
    reveal(cut_inv);
    assert(todo.take(0) =~= VSeq::<Change>::empty());
    match stash {
        Some(x) => {
            lemma_stretch_one(b, a, n, Change::NoChange(x));
            lemma_nonnc_push(VSeq::empty(), Change::NoChange(x));
        },
        None => {},
    }
}

pub proof fn lemma_nonnc_take(todo: VSeq<Change>, k: int)
    requires
        0 <= k < todo.len(),
    ensures
        nonnc(todo.take(k + 1)) == (if is_nc(todo[k]) { nonnc(todo.take(k)) } else { nonnc(todo.take(k)).push(todo[k]) }),
        nonnc(todo) == nonnc(todo.take(k)) + nonnc(todo.skip(k)),
        nonnc(todo) == nonnc(todo.take(k + 1)) + nonnc(todo.skip(k + 1)),
{
    assert(todo.take(k + 1) =~= todo.take(k).push(todo[k]));
    lemma_nonnc_push(todo.take(k), todo[k]);
    assert(todo =~= todo.take(k) + todo.skip(k));
    lemma_nonnc_add(todo.take(k), todo.skip(k));
    assert(todo =~= todo.take(k + 1) + todo.skip(k + 1));
    lemma_nonnc_add(todo.take(k + 1), todo.skip(k + 1));
}

pub proof fn lemma_cut_place<T>(b: VSeq<T>, a: VSeq<T>, todo: VSeq<Change>, k: int)
    requires
        tail_ok(b, a, todo),
        0 <= k < todo.len(),
    ensures
        entry_ok(b, a, todo[k]),
        k + 1 < todo.len() ==> todo[k].sp_end(false) == todo[k + 1].sp_start(false) && todo[k].sp_end(true) == todo[k + 1].sp_start(true) && is_nc(
            todo[k],
        ) != is_nc(todo[k + 1]),
        k + 1 == todo.len() ==> todo[k].sp_end(false) == b.len() && todo[k].sp_end(true) == a.len(),
{
    hide(nonnc);
    reveal(tail_ok);
    if k + 1 < todo.len() {
        assert(todo[k + 1].sp_start(false) == pos(todo, k + 1, start_of(todo, false), false));
    }
}

pub proof fn lemma_cut_take<T>(b: VSeq<T>, a: VSeq<T>, todo: VSeq<Change>, k: int)
    requires
        tail_ok(b, a, todo),
        0 <= k < todo.len(),
    ensures
        entry_ok(b, a, todo[k]),
        nonnc(todo.take(k + 1)) == (if is_nc(todo[k]) { nonnc(todo.take(k)) } else { nonnc(todo.take(k)).push(todo[k]) }),
        k + 1 < todo.len() ==> todo[k].sp_end(false) == todo[k + 1].sp_start(false) && todo[k].sp_end(true) == todo[k + 1].sp_start(true) && is_nc(
            todo[k],
        ) != is_nc(todo[k + 1]),
        k + 1 == todo.len() ==> todo[k].sp_end(false) == b.len() && todo[k].sp_end(true) == a.len(),
        nonnc(todo) == nonnc(todo.take(k)) + nonnc(todo.skip(k)),
        nonnc(todo) == nonnc(todo.take(k + 1)) + nonnc(todo.skip(k + 1)),
        todo.take(todo.len() as int) == todo,
{
    lemma_nonnc_take(todo, k);
    lemma_cut_place(b, a, todo, k);
    assert(todo.take(todo.len() as int) =~= todo);
}

/// an entry is taken over as it is
pub proof fn lemma_cut_push<T>(b: VSeq<T>, a: VSeq<T>, n: int, todo: VSeq<Change>, stash: Option<CommonSubsequence>, k: int, cs: VSeq<Change>)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
        k < todo.len(),
        is_nc(todo[k]) ==> cs.len() > 0 && k + 1 < todo.len(),
    ensures
        cut_inv(b, a, n, todo, stash, k + 1, cs.push(todo[k])),
{
    reveal(cut_inv);
    let c = todo[k];
    lemma_cut_take(b, a, todo, k);
    lemma_nonnc_push(cs, c);
    if cs.len() > 0 {
        lemma_stretch_push(b, a, n, cs, c);
    } else {
        lemma_stretch_one(b, a, n, c);
        assert(cs =~= VSeq::empty());
    }
    assert(cs.push(c)[0] == (if cs.len() > 0 { cs[0] } else { c }));
}

/// the unchanged entry the list begins with is cut at its start
pub proof fn lemma_cut_head<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
    k: int,
    cs: VSeq<Change>,
    x: CommonSubsequence,
    y: CommonSubsequence,
)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
        k + 1 < todo.len(),
        todo[k] == Change::NoChange(x),
        cs.len() == 0,
        y.2 == (if x.2 <= n { x.2 as int } else { n }),
        y.bend() == x.bend(),
        y.aend() == x.aend(),
    ensures
        cut_inv(b, a, n, todo, stash, k + 1, cs.push(Change::NoChange(y))),
{
    reveal(cut_inv);
    let c = Change::NoChange(y);
    lemma_cut_take(b, a, todo, k);
    lemma_nonnc_push(cs, c);
    lemma_sub_block(b, a, x, y);
    lemma_block_gap(b, a, x, 0, x.2 - y.2);
    lemma_stretch_one(b, a, n, c);
    assert(cs =~= VSeq::empty());
    assert(cs.push(c)[0] == c);
}

/// nothing but one unchanged entry
pub proof fn lemma_cut_sole<T>(b: VSeq<T>, a: VSeq<T>, n: int, todo: VSeq<Change>, stash: Option<CommonSubsequence>, k: int, cs: VSeq<Change>)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
        k + 1 == todo.len(),
        is_nc(todo[k]),
        cs.len() == 0,
    ensures
        cut_inv(b, a, n, todo, stash, k + 1, cs),
{
    reveal(cut_inv);
    lemma_cut_take(b, a, todo, k);
}

pub proof fn lemma_cut_some<T>(b: VSeq<T>, a: VSeq<T>, n: int, todo: VSeq<Change>, stash: Option<CommonSubsequence>, k: int, cs: VSeq<Change>)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
        k < todo.len(),
        is_nc(todo[k]),
        cs.len() > 0,
    ensures
        nonnc(cs).len() > 0,
{
    reveal(cut_inv);
    // the entry before it is a change
    if k > 0 {
        lemma_cut_take(b, a, todo, k - 1);
    }
}

/// the last entry, unchanged, is cut at its end
pub proof fn lemma_cut_tail<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
    k: int,
    cs: VSeq<Change>,
    x: CommonSubsequence,
    y: CommonSubsequence,
    todo2: VSeq<Change>,
)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
        k + 1 == todo.len(),
        todo[k] == Change::NoChange(x),
        cs.len() > 0,
        y.2 == (if x.2 <= n { x.2 as int } else { n }),
        y.0 == x.0,
        y.1 == x.1,
        todo2.len() == 0,
    ensures
        cut_done(b, a, n, todo, stash, cs.push(Change::NoChange(y)), todo2, None),
{
    reveal(tail_ok);
    reveal(cut_inv);
    reveal(cut_done);
    let c = Change::NoChange(y);
    lemma_cut_take(b, a, todo, k);
    lemma_cut_some(b, a, n, todo, stash, k, cs);
    lemma_nonnc_push(cs, c);
    lemma_sub_block(b, a, x, y);
    lemma_block_gap(b, a, x, y.2 as int, x.2 as int);
    lemma_stretch_push(b, a, n, cs, c);
    assert(cs.push(c)[0] == cs[0]);
    assert(todo.skip(k + 1) =~= todo2);
    assert(nonnc(cs) + nonnc(todo2) =~= nonnc(cs));
}

pub proof fn lemma_tail_skip<T>(b: VSeq<T>, a: VSeq<T>, todo: VSeq<Change>, k: int)
    requires
        tail_ok(b, a, todo),
        0 <= k <= todo.len(),
    ensures
        tail_ok(b, a, todo.skip(k)),
{
    reveal(tail_ok);
    let todo2 = todo.skip(k);
    // the rest of the list
    assert forall|m: int| 0 <= m < todo2.len() implies entry_ok(b, a, #[trigger] todo2[m]) by {
        assert(todo2[m] == todo[k + m]);
    }
    assert forall|m: int| 0 <= m < todo2.len() implies (#[trigger] todo2[m]).sp_start(false) == pos(todo2, m, start_of(todo2, false), false) && todo2[m].sp_start(
        true,
    ) == pos(todo2, m, start_of(todo2, true), true) by {
        assert(todo2[m] == todo[k + m]);
        if m > 0 {
            assert(todo2[m - 1] == todo[k + m - 1]);
        }
    }
    assert forall|m: int| 0 <= m < todo2.len() - 1 implies is_nc(#[trigger] todo2[m]) != is_nc(todo2[m + 1]) by {
        assert(todo2[m] == todo[k + m]);
        assert(todo2[m + 1] == todo[k + m + 1]);
    }
}

/// an unchanged entry is split between two clumps
pub proof fn lemma_cut_split<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
    k: int,
    cs: VSeq<Change>,
    x: CommonSubsequence,
    y: CommonSubsequence,
    z: CommonSubsequence,
    todo2: VSeq<Change>,
)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
        k + 1 < todo.len(),
        todo[k] == Change::NoChange(x),
        cs.len() > 0,
        x.2 >= 2 * n,
        y.2 == n,
        y.0 == x.0,
        y.1 == x.1,
        z.2 == n,
        z.bend() == x.bend(),
        z.aend() == x.aend(),
        todo2 == todo.skip(k + 1),
    ensures
        cut_done(b, a, n, todo, stash, cs.push(Change::NoChange(y)), todo2, Some(z)),
{
    reveal(cut_inv);
    reveal(cut_done);
    let c = Change::NoChange(y);
    lemma_cut_take(b, a, todo, k);
    lemma_cut_some(b, a, n, todo, stash, k, cs);
    lemma_nonnc_push(cs, c);
    lemma_sub_block(b, a, x, y);
    lemma_sub_block(b, a, x, z);
    lemma_block_gap(b, a, x, y.2 as int, x.2 - z.2);
    lemma_stretch_push(b, a, n, cs, c);
    assert(cs.push(c)[0] == cs[0]);
    lemma_tail_skip(b, a, todo, k + 1);
}

/// the list is read to its end
pub proof fn lemma_cut_end<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
    k: int,
    cs: VSeq<Change>,
)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
    ensures
        k == todo.len() ==> cut_done(b, a, n, todo, stash, cs, todo.skip(k), None),
{
    if k == todo.len() {
        lemma_cut_end_(b, a, n, todo, stash, k, cs, todo.skip(k));
    }
}

pub proof fn lemma_cut_end_<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
    k: int,
    cs: VSeq<Change>,
    todo2: VSeq<Change>,
)
    requires
        cut_inv(b, a, n, todo, stash, k, cs),
        k == todo.len(),
        todo2.len() == 0,
    ensures
        cut_done(b, a, n, todo, stash, cs, todo2, None),
{
    reveal(tail_ok);
    reveal(cut_inv);
    reveal(cut_done);
    assert(todo.take(k) =~= todo);
    assert(nonnc(cs) + nonnc(todo2) =~= nonnc(cs));
    if k > 0 {
        lemma_cut_take(b, a, todo, k - 1);
    }
    if cs.len() == 0 {
        if k == 1 {
            match todo[0] {
                Change::NoChange(x) => { lemma_block_gap(b, a, x, 0, x.2 as int); },
                _ => {},
            }
        }
    }
}
@item trait ChangeBasics
/// the ends are representable
spec fn sp_ok(&self) -> bool;
spec fn sp_start(&self, reverse: bool) -> int;
spec fn sp_end(&self, reverse: bool) -> int;
@fn trait ChangeBasics::before_start
@ret r
    requires
        self.sp_ok(),
    ensures
        r == self.sp_start(reverse),
@fn trait ChangeBasics::before_end
@ret r
    requires
        self.sp_ok(),
    ensures
        r == self.sp_end(reverse),
@fn trait ChangeBasics::before_length
@ret r
    requires
        self.sp_ok(),
        self.sp_start(reverse) <= self.sp_end(reverse),
    ensures
        r == self.sp_end(reverse) - self.sp_start(reverse),
@fn trait ChangeBasics::before_range
@ret r
    requires
        self.sp_ok(),
        reductions.is_some() ==> self.sp_start(reverse) + reductions.unwrap().0 <= usize::MAX && reductions.unwrap().1 <= self.sp_end(reverse),
    ensures
        reductions.is_none() ==> r.0 == self.sp_start(reverse) && r.1 == self.sp_end(reverse),
        reductions.is_some() ==> r.0 == self.sp_start(reverse) + reductions.unwrap().0 && r.1 == self.sp_end(reverse) - reductions.unwrap().1,
@fn trait ChangeBasics::my_before_range
@ret r
    requires
        self.sp_ok(),
        self.sp_start(reverse) <= self.sp_end(reverse),
        reductions.is_some() ==> reductions.unwrap().1 <= self.sp_end(reverse) - self.sp_start(reverse),
    ensures
        reductions.is_none() ==> r.0 == 0 && r.1 == self.sp_end(reverse) - self.sp_start(reverse),
        reductions.is_some() ==> r.0 == reductions.unwrap().0 && r.1 == self.sp_end(reverse) - self.sp_start(reverse) - reductions.unwrap().1,
@fn trait ChangeBasics::after_start
@ret r
    requires
        self.sp_ok(),
    ensures
        r == self.sp_start(!reverse),
@fn trait ChangeBasics::after_end
@ret r
    requires
        self.sp_ok(),
    ensures
        r == self.sp_end(!reverse),
@fn trait ChangeBasics::after_length
@ret r
    requires
        self.sp_ok(),
        self.sp_start(!reverse) <= self.sp_end(!reverse),
    ensures
        r == self.sp_end(!reverse) - self.sp_start(!reverse),
@fn trait ChangeBasics::after_range
@ret r
    requires
        self.sp_ok(),
        reductions.is_some() ==> self.sp_start(!reverse) + reductions.unwrap().0 <= usize::MAX && reductions.unwrap().1 <= self.sp_end(!reverse),
    ensures
        reductions.is_none() ==> r.0 == self.sp_start(!reverse) && r.1 == self.sp_end(!reverse),
        reductions.is_some() ==> r.0 == self.sp_start(!reverse) + reductions.unwrap().0 && r.1 == self.sp_end(!reverse) - reductions.unwrap().1,
@fn trait ChangeBasics::my_after_range
@ret r
    requires
        self.sp_ok(),
        self.sp_start(!reverse) <= self.sp_end(!reverse),
        reductions.is_some() ==> reductions.unwrap().1 <= self.sp_end(!reverse) - self.sp_start(!reverse),
    ensures
        reductions.is_none() ==> r.0 == 0 && r.1 == self.sp_end(!reverse) - self.sp_start(!reverse),
        reductions.is_some() ==> r.0 == reductions.unwrap().0 && r.1 == self.sp_end(!reverse) - self.sp_start(!reverse) - reductions.unwrap().1,
@item impl ChangeBasics for Change
open spec fn sp_ok(&self) -> bool {
    match *self {
        Change::NoChange(c) => c.fits(),
        _ => true,
    }
}
open spec fn sp_start(&self, reverse: bool) -> int {
    match *self {
        Change::NoChange(c) => if reverse { c.1 as int } else { c.0 as int },
        Change::Delete(r, s) => if reverse { s as int } else { r.0 as int },
        Change::Insert(s, r) => if reverse { r.0 as int } else { s as int },
        Change::Replace(r, q) => if reverse { q.0 as int } else { r.0 as int },
    }
}
open spec fn sp_end(&self, reverse: bool) -> int {
    match *self {
        Change::NoChange(c) => if reverse { c.1 + c.2 } else { c.0 + c.2 },
        Change::Delete(r, s) => if reverse { s as int } else { r.1 as int },
        Change::Insert(s, r) => if reverse { r.1 as int } else { s as int },
        Change::Replace(r, q) => if reverse { q.1 as int } else { r.1 as int },
    }
}
@fn ChangeBasics for Change::before_start
@fn ChangeBasics for Change::before_end
@item impl ChangesGenerator<T,I>
/// the index belongs to the before side and the sizes are representable
pub open spec fn ok(&self) -> bool {
    &&& item_ok::<T>()
    &&& self.before.0@.len() <= isize::MAX
    &&& self.after.0@.len() <= isize::MAX
    &&& forall|x: T| idx_ok(self.before.0@, x, #[trigger] self.before_content_indices.sp_idx(x))
}
@fn ChangesGenerator<T,I>::new
@ret r
    requires
        item_ok::<T>(),
        before.0@.len() <= isize::MAX,
        after.0@.len() <= isize::MAX,
    ensures
        r.ok(),
        *r.before == *before,
        *r.after == *after,
@fn ChangesGenerator<T,I>::longest_common_subsequence
@ret r
    requires
        self.ok(),
        before_range.0 <= before_range.1 <= self.before.0@.len(),
        after_range.0 <= after_range.1 <= self.after.0@.len(),
    ensures
        lcs_ok(self.before.0@, self.after.0@, before_range, after_range, r),
@loop 1 it
    invariant
        self.ok(),
        before_range.0 <= before_range.1 <= self.before.0@.len(),
        after_range.0 <= after_range.1 <= self.after.0@.len(),
        good(it.iter),
        it.seq().len() == after_range.1 - after_range.0,
        forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == self.after.0@[after_range.0 + k],
        row_ok(self.before.0@, self.after.0@, before_range, after_range.0 as int, after_range.0 + it.index() - 1, j_to_len@),
        best_ok(self.before.0@, self.after.0@, before_range, after_range, after_range.0 + it.index(), best_lcs),
@loop 2 it2
    invariant
        self.ok(),
        before_range.0 <= before_range.1 <= self.before.0@.len(),
        after_range.0 <= index < after_range.1 <= self.after.0@.len(),
        idx_ok(self.before.0@, self.after.0@[index as int], Some(indices@)),
        it2.seq().len() == indices@.len(),
        forall|k: int| 0 <= k < it2.seq().len() ==> *(#[trigger] it2.seq()[k]) == indices@[k],
        row_ok(self.before.0@, self.after.0@, before_range, after_range.0 as int, index - 1, j_to_len@),
        best_ok(self.before.0@, self.after.0@, before_range, after_range, index as int, best_lcs),
        forall|j: isize| #![trigger new_j_to_len@.contains_key(j)] new_j_to_len@.contains_key(j) ==> new_j_to_len@[j] <= best_lcs.2,
        row_upto(
            self.before.0@,
            self.after.0@,
            before_range,
            after_range.0 as int,
            index as int,
            if it2.index() < indices@.len() { indices@[it2.index()] as int } else { before_range.1 as int },
            new_j_to_len@,
        ),
    ensures
        row_ok(self.before.0@, self.after.0@, before_range, after_range.0 as int, index as int, new_j_to_len@),
        best_ok(self.before.0@, self.after.0@, before_range, after_range, index as int, best_lcs),
        forall|j: isize| #![trigger new_j_to_len@.contains_key(j)] new_j_to_len@.contains_key(j) ==> new_j_to_len@[j] <= best_lcs.2,
@ghost before call get 1
    proof {
        lemma_suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, *j as int, index as int);
        assert(common(self.before.0@, self.after.0@, *j as int, index as int));
        assert(j_to_len@.contains_key((*j - 1) as isize) || !j_to_len@.contains_key((*j - 1) as isize));
    }
@ghost loop 2 start
    let ghost vx_best = best_lcs;
@ghost loop 2 end
    proof {
        if *j >= before_range.0 {
            lemma_suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, *j as int, index as int);
            if best_lcs != vx_best {
                lemma_suf_block(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, *j as int, index as int, best_lcs);
            }
        }
    }
@ghost loop 1 end
    proof {
        let i0 = (after_range.0 + it.index()) as int;
        assert(row_ok(self.before.0@, self.after.0@, before_range, after_range.0 as int, i0, j_to_len@));
        assert forall|j: int, i: int| before_range.0 <= j < before_range.1 && after_range.0 <= i < i0 + 1 implies
            #[trigger] suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, j, i) <= best_lcs.2 by {
            if i == i0 {
                assert(j_to_len@.contains_key(j as isize) || !j_to_len@.contains_key(j as isize));
                assert(j_to_len@.contains_key(j as isize) ==> j_to_len@[j as isize] <= best_lcs.2);
                let jj = j as isize;
                assert(jj as int == j);
                assert(row_ok(self.before.0@, self.after.0@, before_range, after_range.0 as int, i0, j_to_len@));
                if j_to_len@.contains_key(jj) {
                    assert(j_to_len@[jj] == suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, jj as int, i0));
                } else {
                    assert(suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, jj as int, i0) == 0);
                }
                assert(suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, j, i0) <= best_lcs.2);
            } else {
                assert(best_ok(self.before.0@, self.after.0@, before_range, after_range, i0, best_lcs));
            }
        }
    }
@ghost after loop 1
    proof {
        assert forall|d: CommonSubsequence| #![trigger block(self.before.0@, self.after.0@, d)] block(self.before.0@, self.after.0@, d)
            && inside(d, before_range, after_range) implies d.2 <= best_lcs.2 by {
            if d.2 > 0 {
                lemma_block_suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, d, d.2 as int);
            }
        }
        assert forall|j: int, i: int| within_range(before_range, j) && within_range(after_range, i) && best_lcs.2 == 0 implies
            !#[trigger] common(self.before.0@, self.after.0@, j, i) by {
            assert(suf(self.before.0@, self.after.0@, before_range.0 as int, after_range.0 as int, j, i) <= 0);
        }
    }
@ghost before call incr_size_moving_starts 1
    let ghost vx_old = best_lcs;
    proof {
        let sb = self.before.0@.subrange(before_range.0 as int, best_lcs.0 as int).as_ref().reverse();
        let sa = self.after.0@.subrange(after_range.0 as int, best_lcs.1 as int).as_ref().reverse();
        let z = sb.zip_truncate(sa);
        assert forall|k: int| 0 <= k < count implies #[trigger] self.before.0@[best_lcs.0 - 1 - k] == self.after.0@[best_lcs.1 - 1 - k] by {
            assert(z[k] == (sb[k], sa[k]));
        }
    }
@ghost after call incr_size_moving_starts 1
    proof {
        assert forall|k: int| 0 <= k < best_lcs.2 implies #[trigger] self.before.0@[best_lcs.0 + k] == self.after.0@[best_lcs.1 + k] by {
            let n = vx_old.0 - best_lcs.0;
            if k < n {
                assert(self.before.0@[vx_old.0 - 1 - (n - 1 - k)] == self.after.0@[vx_old.1 - 1 - (n - 1 - k)]);
            } else {
                assert(self.before.0@[vx_old.0 + (k - n)] == self.after.0@[vx_old.1 + (k - n)]);
            }
        }
    }
@ghost before call incr_size_moving_ends 1
    let ghost vx_old = best_lcs;
    proof {
        let sb = self.before.0@.subrange(best_lcs.bend(), before_range.1 as int).as_ref();
        let sa = self.after.0@.subrange(best_lcs.aend(), after_range.1 as int).as_ref();
        let z = sb.zip_truncate(sa);
        assert forall|k: int| 0 <= k < count implies #[trigger] self.before.0@[best_lcs.bend() + k] == self.after.0@[best_lcs.aend() + k] by {
            assert(z[k] == (sb[k], sa[k]));
        }
    }
@ghost after call incr_size_moving_ends 1
    proof {
        assert forall|k: int| 0 <= k < best_lcs.2 implies #[trigger] self.before.0@[best_lcs.0 + k] == self.after.0@[best_lcs.1 + k] by {
            if k >= vx_old.2 {
                let m = k - vx_old.2;
                assert(self.before.0@[vx_old.bend() + m] == self.after.0@[vx_old.aend() + m]);
            }
        }
    }
@closure 1 &(&T, &T) -> (q: bool)
    ensures
        q == vx_p.0.eq_spec(vx_p.1),
@closure 2 &(&T, &T) -> (q: bool)
    ensures
        q == vx_p.0.eq_spec(vx_p.1),
@fn ChangesGenerator<T,I>::longest_common_subsequences
@ret r
    requires
        self.ok(),
    ensures
        lcses_ok(self.before.0@, self.after.0@, r@),
@loop 1
    invariant
        self.ok(),
        rects_ok(self.before.0@, self.after.0@, lifo@, raw_lcses@),
        raw_ok(self.before.0@, self.after.0@, raw_lcses@),
        pending_ok(self.before.0@, self.after.0@, lifo@, raw_lcses@),
    ensures
        raw_ok(self.before.0@, self.after.0@, raw_lcses@),
        pending_ok(self.before.0@, self.after.0@, VSeq::empty(), raw_lcses@),
    decreases weight(lifo@),
@ghost before loop 1
    proof {
        assert forall|j: int, i: int| #[trigger] common(self.before.0@, self.after.0@, j, i) implies in_rect(lifo@[0], j, i) by {}
    }
@ghost loop 1 start
    let ghost vx_st = lifo@;
    let ghost vx_raw = raw_lcses@;
    let ghost vx_r = (before_range, after_range);
    proof {
        assert forall|x: VSeq<(Range, Range)>| x.len() > 0 implies #[trigger] x.drop_last().push(x.last()) == x by {
            assert(x.drop_last().push(x.last()) =~= x);
        }
        assert(rect_ok(self.before.0@, self.after.0@, vx_st.push(vx_r)[vx_st.len() as int]));
        lemma_weight_push(vx_st, vx_r);
    }
@ghost loop 1 end
    proof {
        if raw_lcses@ == vx_raw {
            lemma_rect_none(self.before.0@, self.after.0@, vx_st, vx_r, vx_raw);
        } else {
            let c = raw_lcses@.last();
            assert(raw_lcses@ =~= vx_raw.push(c));
            lemma_rect_some(self.before.0@, self.after.0@, vx_st, vx_r, vx_raw, c);
            assert(lifo@ =~= after_split(vx_st, vx_r, c));
        }
    }
@ghost before call par_sort 1
    let ghost vx_raw = raw_lcses@;
@ghost after call par_sort 1
    proof {
        lemma_sorted(self.before.0@, self.after.0@, vx_raw, raw_lcses@);
    }
@loop 2
    invariant
        self.ok(),
        blocks_ok(self.before.0@, self.after.0@, raw_lcses@),
        complete(self.before.0@, self.after.0@, raw_lcses@),
        merged(self.before.0@, self.after.0@, raw_lcses@, i as int, lcses@),
    ensures
        lcses_ok(self.before.0@, self.after.0@, lcses@),
    decreases raw_lcses@.len() - i,
@loop 3
    invariant
        self.ok(),
        blocks_ok(self.before.0@, self.after.0@, raw_lcses@),
        joined(self.before.0@, self.after.0@, raw_lcses@, vx_from, i as int, new_lcs),
    ensures
        joined(self.before.0@, self.after.0@, raw_lcses@, vx_from, i as int, new_lcs),
        i < raw_lcses@.len() ==> !touch(new_lcs, raw_lcses@[i as int]),
    decreases raw_lcses@.len() - i,
@ghost loop 2 start
    let ghost vx_from = i as int;
    let ghost vx_l = lcses@;
@ghost loop 2 end
    proof {
        lemma_merged_push(self.before.0@, self.after.0@, raw_lcses@, vx_from, i as int, vx_l, new_lcs);
        if i == raw_lcses@.len() {
            lemma_merged_all(self.before.0@, self.after.0@, raw_lcses@, lcses@);
        }
    }
@ghost loop 3 start
    let ghost vx_c = new_lcs;
@ghost loop 3 end
    proof {
        lemma_joined_more(self.before.0@, self.after.0@, raw_lcses@, vx_from, i - 1, vx_c, new_lcs);
    }
@fn ChangesGenerator<T,I>::generate
@ret r
    requires
        self.ok(),
    ensures
        script_ok(self.before.0@, self.after.0@, r@),
@loop 1 it
    invariant
        self.ok(),
        lcses_ok(self.before.0@, self.after.0@, it.seq()),
        script_to(self.before.0@, self.after.0@, changes@, i as int, j as int),
        it.index() == 0 ==> i == 0 && j == 0 && changes@.len() == 0,
        it.index() > 0 ==> i == it.seq()[it.index() - 1].bend() && j == it.seq()[it.index() - 1].aend() && changes@.len() > 0 && is_nc(changes@.last()),
        it.index() == it.seq().len() ==> nothing_common(
            self.before.0@,
            self.after.0@,
            Range(i, self.before.0@.len() as usize),
            Range(j, self.after.0@.len() as usize),
        ),
    ensures
        script_to(self.before.0@, self.after.0@, changes@, i as int, j as int),
        changes@.len() > 0 ==> is_nc(changes@.last()),
        nothing_common(self.before.0@, self.after.0@, Range(i, self.before.0@.len() as usize), Range(j, self.after.0@.len() as usize)),
@ghost loop 1 start
    let ghost vx_cs = changes@;
    let ghost vx_n = it.index();
    let ghost vx_i = i;
    let ghost vx_j = j;
    proof {
        if vx_n > 0 {
            assert(before(it.seq()[vx_n - 1], it.seq()[vx_n as int]));
            assert(!touch(it.seq()[vx_n - 1], it.seq()[vx_n as int]));
        }
        lemma_gap(self.before.0@, self.after.0@, it.seq(), vx_n as int, Range(i, lcs.0), Range(j, lcs.1));
    }
@ghost loop 1 end
    proof {
        if vx_i < lcs.0 || vx_j < lcs.1 {
            let g = changes@[vx_cs.len() as int];
            lemma_script_push(self.before.0@, self.after.0@, vx_cs, vx_i as int, vx_j as int, g);
            lemma_script_push(self.before.0@, self.after.0@, vx_cs.push(g), lcs.0 as int, lcs.1 as int, Change::NoChange(lcs));
            assert(changes@ =~= vx_cs.push(g).push(Change::NoChange(lcs)));
        } else {
            lemma_script_push(self.before.0@, self.after.0@, vx_cs, vx_i as int, vx_j as int, Change::NoChange(lcs));
            assert(changes@ =~= vx_cs.push(Change::NoChange(lcs)));
        }
        lemma_gap_end(self.before.0@, self.after.0@, it.seq(), vx_n + 1, Range(i, self.before.0@.len() as usize), Range(j, self.after.0@.len() as usize));
    }
@ghost after loop 1
    let ghost vx_cs = changes@;
    proof { theorem_rebuild(self.before.0@, self.after.0@, vx_cs, i as int, j as int); }
@ghost end
    proof {
        if changes@ != vx_cs {
            let g = changes@.last();
            lemma_script_push(self.before.0@, self.after.0@, vx_cs, i as int, j as int, g);
            assert(changes@ =~= vx_cs.push(g));
        }
    }
@fn Changes<String>::new
@ret r
    ensures
        r.before == before,
        r.after == after,
        script_ok(before.0@, after.0@, r.changes@),
@ghost start
    proof {
        lemma_item_ok_string();
        ax_len_strings(before.0);
        ax_len_strings(after.0);
    }
@fn Changes<u8>::new
@ret r
    ensures
        r.before == before,
        r.after == after,
        script_ok(before.0@, after.0@, r.changes@),
@ghost start
    proof {
        lemma_item_ok_u8();
        ax_len_bytes(before.0);
        ax_len_bytes(after.0);
    }
@fn Deref for ChangeClump<T>::deref
@ret r
    ensures
        *r == self.changes,
@fn DerefMut for ChangeClump<T>::deref_mut
@ret r
    ensures
        *r == old(self).changes,
        final(self).changes == *final(r),
        final(self).before == old(self).before,
        final(self).after == old(self).after,
@item impl ChangeBasics for ChangeClump<T>
open spec fn sp_ok(&self) -> bool {
    self.changes@.len() > 0 ==> self.changes@[0].sp_ok() && self.changes@[self.changes@.len() - 1].sp_ok()
}
open spec fn sp_start(&self, reverse: bool) -> int {
    if self.changes@.len() > 0 { start_of(self.changes@, reverse) } else { 0 }
}
open spec fn sp_end(&self, reverse: bool) -> int {
    if self.changes@.len() > 0 { end_of(self.changes@, reverse) } else { 0 }
}
@fn ChangeBasics for ChangeClump<T>::before_start
@fn ChangeBasics for ChangeClump<T>::before_end
@fn ChangeClump<T>::starts
@ret r
    requires
        self.sp_ok(),
    ensures
        r.0 == self.sp_start(false),
        r.1 == self.sp_start(true),
@fn ChangeClump<T>::ends
@ret r
    requires
        self.sp_ok(),
    ensures
        r.0 == self.sp_end(false),
        r.1 == self.sp_end(true),
@fn ChangeClump<T>::ranges
@ret r
    requires
        self.sp_ok(),
    ensures
        r.0.0 == self.sp_start(false) && r.0.1 == self.sp_end(false),
        r.1.0 == self.sp_start(true) && r.1.1 == self.sp_end(true),
@fn ChangeClump<T>::context_lengths
@ret r
    ensures
        self.changes@.len() == 0 ==> r == (0u8, 0u8),
        self.changes@.len() > 0 && nc_len(self.changes@[0]) <= 255 ==> r.0 == nc_len(self.changes@[0]),
        self.changes@.len() > 0 && nc_len(self.changes@.last()) <= 255 ==> r.1 == nc_len(self.changes@.last()),
@item impl Iterator for ChangeClumpIter<T>
/// the entries not yet read
#[verifier::prophetic]
pub open spec fn todo(&self) -> VSeq<Change> {
    vals(rem(self.iter))
}
/// everything read so far is accounted for; the stash is the context before the next change
#[verifier::prophetic]
pub open spec fn state_ok(&self) -> bool {
    good(self.iter) && rest_ok(self.before.0@, self.after.0@, self.context as int, self.todo(), self.stash)
}
/// where the next clump may start
#[verifier::prophetic]
pub open spec fn at(&self, reverse: bool) -> int {
    rest_at(self.before.0@, self.after.0@, self.todo(), self.stash, reverse)
}
@fn Iterator for ChangeClumpIter<T>::next
@ret r
    requires
        old(self).state_ok(),
    ensures
        final(self).before == old(self).before,
        final(self).after == old(self).after,
        final(self).context == old(self).context,
        final(self).state_ok(),
        cut_done(
            old(self).before.0@,
            old(self).after.0@,
            old(self).context as int,
            old(self).todo(),
            old(self).stash,
            match r { Some(c) => c.changes@, None => VSeq::empty() },
            final(self).todo(),
            final(self).stash,
        ),
        r.is_some() ==> {
            &&& r.unwrap().before == old(self).before
            &&& r.unwrap().after == old(self).after
            &&& r.unwrap().changes@.len() > 0
        },
@ghost start
    let ghost mut vx_k = 0int;
@loop 1
    invariant_except_break
        (*old(self)).state_ok(),
        self.before == (*old(self)).before,
        self.after == (*old(self)).after,
        self.context == (*old(self)).context,
        self.stash.is_none(),
        good(self.iter),
        0 <= vx_k <= (*old(self)).todo().len(),
        self.todo() == (*old(self)).todo().skip(vx_k),
        self.todo().len() == (*old(self)).todo().len() - vx_k,
        self.todo().len() == rem(self.iter).len(),
        cut_inv(
            self.before.0@,
            self.after.0@,
            self.context as int,
            (*old(self)).todo(),
            (*old(self)).stash,
            vx_k,
            changes@,
        ),
        vx_k == (*old(self)).todo().len() ==> cut_done(
            self.before.0@,
            self.after.0@,
            self.context as int,
            (*old(self)).todo(),
            (*old(self)).stash,
            changes@,
            (*old(self)).todo().skip(vx_k),
            None,
        ),
    ensures
        self.before == (*old(self)).before,
        self.after == (*old(self)).after,
        self.context == (*old(self)).context,
        good(self.iter),
        cut_done(
            self.before.0@,
            self.after.0@,
            self.context as int,
            (*old(self)).todo(),
            (*old(self)).stash,
            changes@,
            self.todo(),
            self.stash,
        ),
    decreases fuel(self.iter),
@ghost before loop 1
    proof {
        lemma_cut_start(self.before.0@, self.after.0@, self.context as int, (*old(self)).todo(), (*old(self)).stash, changes@);
        lemma_cut_end(self.before.0@, self.after.0@, self.context as int, (*old(self)).todo(), (*old(self)).stash, 0, changes@);
        assert((*old(self)).todo().skip(0) =~= (*old(self)).todo());
    }
@ghost loop 1 start
    let ghost vx_cs = changes@;
    proof {
        vx_k = vx_k + 1;
        lemma_cut_take(self.before.0@, self.after.0@, (*old(self)).todo(), vx_k - 1);
        assert(*change == (*old(self)).todo().skip(vx_k - 1)[0]);
        assert((*old(self)).todo().skip(vx_k) =~= (*old(self)).todo().skip(vx_k - 1).drop_first());
        assert(self.todo() =~= (*old(self)).todo().skip(vx_k));
    }
@ghost loop 1 end
    proof {
        let td = (*old(self)).todo();
        if changes@.len() == vx_cs.len() {
            lemma_cut_sole(self.before.0@, self.after.0@, self.context as int, td, (*old(self)).stash, vx_k - 1, vx_cs);
        } else {
            assert(changes@ =~= vx_cs.push(changes@.last()));
            match (*change, changes@.last()) {
                (Change::NoChange(x), Change::NoChange(y)) => {
                    if vx_cs.len() == 0 {
                        lemma_cut_head(self.before.0@, self.after.0@, self.context as int, td, (*old(self)).stash, vx_k - 1, vx_cs, x, y);
                    } else {
                        lemma_cut_push(self.before.0@, self.after.0@, self.context as int, td, (*old(self)).stash, vx_k - 1, vx_cs);
                    }
                },
                _ => {
                    lemma_cut_push(self.before.0@, self.after.0@, self.context as int, td, (*old(self)).stash, vx_k - 1, vx_cs);
                },
            }
        }
        lemma_cut_end(self.before.0@, self.after.0@, self.context as int, td, (*old(self)).stash, vx_k, changes@);
    }
@ghost after call ends_trimmed 1
    proof {
        assert(changes@ =~= vx_cs.push(changes@.last()));
        match (*change, changes@.last()) {
            (Change::NoChange(x), Change::NoChange(y)) => {
                lemma_cut_tail(self.before.0@, self.after.0@, self.context as int, (*old(self)).todo(), (*old(self)).stash, vx_k - 1, vx_cs, x, y, self.todo());
            },
            _ => {},
        }
    }
@ghost after call push 4
    proof {
        assert(changes@ =~= vx_cs.push(changes@.last()));
        match *change {
            Change::NoChange(x) => {
                lemma_cut_split(
                    self.before.0@,
                    self.after.0@,
                    self.context as int,
                    (*old(self)).todo(),
                    (*old(self)).stash,
                    vx_k - 1,
                    vx_cs,
                    x,
                    head,
                    tail,
                    self.todo(),
                );
            },
            _ => {},
        }
    }
@ghost after loop 1
    proof { reveal(cut_done); }
@fn Changes<T>::change_clumps
@ret r
    requires
        script_ok(self.before.0@, self.after.0@, self.changes@),
    ensures
        r.state_ok(),
        r.stash.is_none(),
        *r.before == self.before,
        *r.after == self.after,
        r.context == context,
        r.todo() == self.changes@,
@ghost end
    proof {
        reveal(tail_ok);
        assert(vx_r.todo() =~= self.changes@);
    }
@bottom
/// the clumps as `change_clumps(..)` hands them out one after the other; this function exists for
/// the proof only: its postcondition is C04 for the list as a whole
//@@FN changes::vx_all_clumps
pub fn vx_all_clumps<'a, T: PartialEq + Clone>(changes: &'a Changes<T>, context: u8) -> (r: Vec<ChangeClump<'a, T>>)
    requires
        script_ok(changes.before.0@, changes.after.0@, changes.changes@),
    ensures
        clumps_ok(changes.before.0@, changes.after.0@, context as int, changes.changes@, clump_lists(r@)),
{
    let mut it = changes.change_clumps(context);
    let mut r: Vec<ChangeClump<'a, T>> = Vec::new();
    proof { lemma_collect_start(changes.before.0@, changes.after.0@, context as int, changes.changes@); }
    loop
        invariant_except_break
            it.state_ok(),
            *it.before == changes.before,
            *it.after == changes.after,
            it.context == context,
            collect_inv(changes.before.0@, changes.after.0@, context as int, changes.changes@, clump_lists(r@), it.todo(), it.stash),
        ensures
            clumps_ok(changes.before.0@, changes.after.0@, context as int, changes.changes@, clump_lists(r@)),
        decreases nonnc(changes.changes@).len() - all_nonnc(clump_lists(r@)).len(),
    {
        let ghost vx_r = r@;
        broadcast use lemma_collect_step;
        match it.next() {
            Some(c) => {
                proof {
                    assert(clump_lists(vx_r.push(c)) =~= clump_lists(vx_r).push(c.changes@));
                }
                r.push(c);
            },
            None => {
                break;
            },
        }
    }
    r
}
//@@END

/// a clump is the entries it holds
pub open spec fn clump_lists<'a, T: PartialEq + Clone>(l: VSeq<ChangeClump<'a, T>>) -> VSeq<VSeq<Change>> {
    VSeq::new(l.len(), |k: int| l[k].changes@)
}

/// while the clumps are collected
pub open spec fn collect_inv<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    cs: VSeq<Change>,
    l: VSeq<VSeq<Change>>,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
) -> bool {
    &&& clumps_to(b, a, n, l, rest_at(b, a, todo, stash, false), rest_at(b, a, todo, stash, true))
    &&& nonnc(cs) == all_nonnc(l) + nonnc(todo)
}

pub proof fn lemma_collect_start<T>(b: VSeq<T>, a: VSeq<T>, n: int, cs: VSeq<Change>)
    requires
        script_ok(b, a, cs),
    ensures
        collect_inv(b, a, n, cs, VSeq::empty(), cs, None),
{
    assert(VSeq::<Change>::empty() + nonnc(cs) =~= nonnc(cs));
}

pub broadcast proof fn lemma_collect_step<T>(
    b: VSeq<T>,
    a: VSeq<T>,
    n: int,
    cs: VSeq<Change>,
    l: VSeq<VSeq<Change>>,
    todo: VSeq<Change>,
    stash: Option<CommonSubsequence>,
    c: VSeq<Change>,
    todo2: VSeq<Change>,
    stash2: Option<CommonSubsequence>,
)
    requires
        #[trigger] collect_inv(b, a, n, cs, l, todo, stash),
        #[trigger] cut_done(b, a, n, todo, stash, c, todo2, stash2),
    ensures
        c.len() > 0 ==> collect_inv(b, a, n, cs, l.push(c), todo2, stash2) && all_nonnc(l.push(c)).len() > all_nonnc(l).len(),
        c.len() > 0 ==> all_nonnc(l.push(c)).len() <= nonnc(cs).len(),
        c.len() == 0 ==> clumps_ok(b, a, n, cs, l),
{
    reveal(cut_done);
    if c.len() > 0 {
        lemma_clumps_push(b, a, n, l, rest_at(b, a, todo, stash, false), rest_at(b, a, todo, stash, true), c, rest_at(b, a, todo2, stash2, false), rest_at(b, a, todo2, stash2, true));
        assert((all_nonnc(l) + nonnc(c)) + nonnc(todo2) =~= all_nonnc(l) + (nonnc(c) + nonnc(todo2)));
    } else {
        assert(all_nonnc(l) + nonnc(todo) =~= all_nonnc(l));
        let p0 = rest_at(b, a, todo, stash, false);
        let p1 = rest_at(b, a, todo, stash, true);
        if l.len() > 0 {
            lemma_gap_join(b, a, end_of(l.last(), false), end_of(l.last(), true), p0, p1, b.len() as int, a.len() as int);
        } else {
            lemma_gap_join(b, a, 0, 0, p0, p1, b.len() as int, a.len() as int);
        }
    }
}
