@module apply_text pw_diff_lib/src/apply_text.rs
@uses
use vstd::seq::Seq as VSeq;
use vstd::std_specs::cmp::PartialEqSpec;
use crate::prelude::*;
use crate::range::*;
use crate::changes::ChangeBasics;
use crate::sequence::{occurs, ConsumableSeq, ConsumableSeqIfce, Seq, WriteDataInto};
use crate::snippet::{redn0, redn1, redn_ok, trimmed};
use crate::patch::*;
use std::io;
broadcast use {vstd::std_specs::iter::group_iter_axioms, crate::prelude::group_cat};
@top
/// ---------- where a clump fits (C10) ----------
/// a clump that can be used on a text: its context lies on both sides, its positions are those of
/// a text that could exist
pub open spec fn text_ok(c: Clump<String>) -> bool {
    &&& 0 <= c.s0 <= isize::MAX / 8
    &&& 0 <= c.s1 <= isize::MAX / 8
    &&& 0 <= c.c0 <= 255
    &&& 0 <= c.c1 <= 255
    &&& c.c0 + c.c1 <= c.v0.len() <= isize::MAX / 8
    &&& c.c0 + c.c1 <= c.v1.len() <= isize::MAX / 8
}

/// no more than the context is trimmed
pub open spec fn within(c: Clump<String>, d: Option<(u8, u8)>) -> bool {
    redn0(d) <= c.c0 && redn1(d) <= c.c1
}

/// where the clump's source lines are expected
pub open spec fn place(c: Clump<String>, offset: int, d: Option<(u8, u8)>, reverse: bool) -> int {
    c.start(reverse) + offset + redn0(d)
}

/// the clump's source lines, trimmed by d, are in x at the place displaced by offset
pub open spec fn fits(c: Clump<String>, x: VSeq<String>, offset: int, d: Option<(u8, u8)>, reverse: bool) -> bool {
    occurs(x, trimmed(c.src(reverse), d), place(c, offset, d, reverse))
}

/// trimming k lines, or as many as there are, at both ends
pub open spec fn cut(c: Clump<String>, k: int) -> Option<(u8, u8)> {
    Some(((if k < c.c0 { k } else { c.c0 }) as u8, (if k < c.c1 { k } else { c.c1 }) as u8))
}

pub open spec fn longer(c: Clump<String>) -> int {
    if c.c0 < c.c1 { c.c1 } else { c.c0 }
}

/// none of the trims by 1 .. k - 1 fits
pub open spec fn no_cut_below(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, k: int) -> bool {
    forall|j: int| 1 <= j < k ==> !fits(c, x, offset, #[trigger] cut(c, j), reverse)
}

/// what the clump is reported to be at a displacement: the least trim that fits
#[verifier::opaque]
pub open spec fn reported(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, r: Option<WillApply>) -> bool {
    match r {
        Some(WillApply::Cleanly) => fits(c, x, offset, None, reverse),
        Some(WillApply::WithReductions(d)) => {
            &&& !fits(c, x, offset, None, reverse)
            &&& exists|k: int| {
                &&& 1 <= k < longer(c)
                &&& Some(d) == #[trigger] cut(c, k)
                &&& fits(c, x, offset, Some(d), reverse)
                &&& no_cut_below(c, x, offset, reverse, k)
            }
        },
        None => !fits(c, x, offset, None, reverse) && no_cut_below(c, x, offset, reverse, longer(c)),
    }
}

pub open spec fn trim_of(w: WillApply) -> Option<(u8, u8)> {
    match w {
        WillApply::Cleanly => None,
        WillApply::WithReductions(d) => Some(d),
    }
}

pub open spec fn trim_of_opt(w: Option<WillApply>) -> Option<(u8, u8)> {
    match w {
        Some(w) => trim_of(w),
        None => None,
    }
}

/// what is reported is there
pub proof fn lemma_reported(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, w: WillApply)
    requires
        reported(c, x, offset, reverse, Some(w)),
        text_ok(c),
    ensures
        fits(c, x, offset, trim_of(w), reverse),
        within(c, trim_of(w)),
{
    reveal(reported);
}

/// two reports about the same displacement agree
pub proof fn lemma_reported_same(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, r: Option<WillApply>, q: Option<WillApply>)
    requires
        reported(c, x, offset, reverse, r),
        reported(c, x, offset, reverse, q),
    ensures
        r == q,
{
    reveal(reported);
    if let Some(WillApply::WithReductions(d)) = r {
        let k = choose|k: int| {
            &&& 1 <= k < longer(c)
            &&& Some(d) == #[trigger] cut(c, k)
            &&& fits(c, x, offset, Some(d), reverse)
            &&& no_cut_below(c, x, offset, reverse, k)
        };
        if let Some(WillApply::WithReductions(e)) = q {
            let m = choose|k: int| {
                &&& 1 <= k < longer(c)
                &&& Some(e) == #[trigger] cut(c, k)
                &&& fits(c, x, offset, Some(e), reverse)
                &&& no_cut_below(c, x, offset, reverse, k)
            };
            assert(Some(e) == cut(c, m));
            assert(!(k < m)) by { if k < m { assert(!fits(c, x, offset, cut(c, k), reverse)); } }
            assert(!(m < k)) by { if m < k { assert(!fits(c, x, offset, cut(c, m), reverse)); } }
        } else if q.is_none() {
            assert(!fits(c, x, offset, cut(c, k), reverse));
        }
    } else if r.is_none() {
        if let Some(WillApply::WithReductions(e)) = q {
            let m = choose|k: int| {
                &&& 1 <= k < longer(c)
                &&& Some(e) == #[trigger] cut(c, k)
                &&& fits(c, x, offset, Some(e), reverse)
                &&& no_cut_below(c, x, offset, reverse, k)
            };
            assert(!fits(c, x, offset, cut(c, m), reverse));
        }
    }
}

pub broadcast proof fn lemma_reported_some(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, w: WillApply)
    requires
        #[trigger] reported(c, x, offset, reverse, Some(w)),
    ensures
        !reported(c, x, offset, reverse, None),
{
    if reported(c, x, offset, reverse, None) {
        lemma_reported_same(c, x, offset, reverse, Some(w), None);
    }
}

/// ---------- the search for a displaced fit (C11) ----------
/// what is reported for lines not before `used`
#[verifier::opaque]
pub open spec fn reported_unused(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, r: Option<WillApply>) -> bool {
    match r {
        Some(w) => reported(c, x, offset, reverse, r) && place(c, offset, trim_of(w), reverse) >= used,
        None => reported(c, x, offset, reverse, None) || exists|w: WillApply| #[trigger]
            reported(c, x, offset, reverse, Some(w)) && place(c, offset, trim_of(w), reverse) < used,
    }
}

pub broadcast proof fn lemma_reported_unused_some(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, w: WillApply)
    requires
        #[trigger] reported_unused(c, x, used, offset, reverse, Some(w)),
    ensures
        !reported_unused(c, x, used, offset, reverse, None),
{
    reveal(reported_unused);
    if reported_unused(c, x, used, offset, reverse, None) {
        if reported(c, x, offset, reverse, None) {
            lemma_reported_same(c, x, offset, reverse, Some(w), None);
        } else {
            let v = choose|v: WillApply| #[trigger] reported(c, x, offset, reverse, Some(v)) && place(c, offset, trim_of(v), reverse) < used;
            lemma_reported_same(c, x, offset, reverse, Some(w), Some(v));
        }
    }
}

/// last position looked at when searching forwards
pub open spec fn window_end(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, offset: int, reverse: bool) -> int {
    (match next {
        Some(n) => n.start(reverse) + offset + c.c0,
        None => x.len() as int,
    }) - (c.src(reverse).len() - c.c0 - c.c1)
}

/// the clump qualifies i lines further back, or further on
pub open spec fn back_at(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, i: int) -> bool {
    place(c, offset - i, None, reverse) >= used && !reported(c, x, offset - i, reverse, None)
}

pub open spec fn on_at(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int, i: int) -> bool {
    place(c, offset + i, None, reverse) <= end && !reported_unused(c, x, used, offset + i, reverse, None)
}

/// nothing qualifies less than n lines away
pub open spec fn none_nearer(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int, n: int) -> bool {
    forall|i: int|
        #![trigger back_at(c, x, used, offset, reverse, i)]
        #![trigger on_at(c, x, used, offset, reverse, end, i)]
        1 <= i < n ==> !back_at(c, x, used, offset, reverse, i) && !on_at(c, x, used, offset, reverse, end, i)
}

pub open spec fn nowhere(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int) -> bool {
    forall|i: int|
        #![trigger back_at(c, x, used, offset, reverse, i)]
        #![trigger on_at(c, x, used, offset, reverse, end, i)]
        1 <= i ==> !back_at(c, x, used, offset, reverse, i) && !on_at(c, x, used, offset, reverse, end, i)
}

/// the nearest qualifying displacement, the earlier of two equally near ones
pub open spec fn nearest(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int, r: Option<(isize, WillApply)>) -> bool {
    match r {
        Some((d, w)) => {
            &&& d < 0 ==> {
                &&& back_at(c, x, used, offset, reverse, -d)
                &&& reported(c, x, offset + d, reverse, Some(w))
                &&& none_nearer(c, x, used, offset, reverse, end, -d)
            }
            &&& d > 0 ==> {
                &&& on_at(c, x, used, offset, reverse, end, d as int)
                &&& reported_unused(c, x, used, offset + d, reverse, Some(w))
                &&& none_nearer(c, x, used, offset, reverse, end, d as int)
                &&& !back_at(c, x, used, offset, reverse, d as int)
            }
            &&& d != 0
        },
        None => nowhere(c, x, used, offset, reverse, end),
    }
}

pub proof fn lemma_nowhere(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int, n: int)
    requires
        none_nearer(c, x, used, offset, reverse, end, n),
        place(c, offset, None, reverse) - (n - 1) < used,
        place(c, offset, None, reverse) + (n - 1) > end,
    ensures
        nowhere(c, x, used, offset, reverse, end),
{
    assert forall|i: int| 1 <= i implies !#[trigger] back_at(c, x, used, offset, reverse, i) && !on_at(c, x, used, offset, reverse, end, i) by {
        if i < n {
            assert(!back_at(c, x, used, offset, reverse, i));
        }
    }
}

/// what the search returns fits and does not start before the used-up text
pub proof fn lemma_nearest(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int, d: isize, w: WillApply)
    requires
        nearest(c, x, used, offset, reverse, end, Some((d, w))),
        text_ok(c),
    ensures
        place(c, offset + d, trim_of(w), reverse) >= used,
        fits(c, x, offset + d, trim_of(w), reverse),
        within(c, trim_of(w)),
{
    reveal(reported_unused);
    lemma_reported(c, x, offset + d, reverse, w);
}

/// C11: with nothing following, a clean fit after the used-up text is not missed
pub proof fn theorem_search_finds(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, p: int)
    requires
        text_ok(c),
        nearest(c, x, used, offset, reverse, window_end(c, None, x, offset, reverse), None),
        occurs(x, c.src(reverse), p),
        p >= used,
    ensures
        p == c.start(reverse) + offset,
{
    reveal(reported);
    reveal(reported_unused);
    let i = c.start(reverse) + offset - p;
    let end = window_end(c, None, x, offset, reverse);
    assert(trimmed(c.src(reverse), None) =~= c.src(reverse));
    if i > 0 {
        assert(fits(c, x, offset - i, None, reverse));
        assert(back_at(c, x, used, offset, reverse, i));
    } else if i < 0 {
        assert(fits(c, x, offset + -i, None, reverse));
        assert forall|w: WillApply| #[trigger] reported(c, x, offset + -i, reverse, Some(w)) implies w is Cleanly by {}
        assert(on_at(c, x, used, offset, reverse, end, -i));
        assert(!back_at(c, x, used, offset, reverse, -i));
    }
}
pub broadcast proof fn lemma_reported_any(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, r: Option<WillApply>)
    requires
        #[trigger] reported(c, x, offset, reverse, r),
        text_ok(c),
    ensures
        r.is_some() ==> fits(c, x, offset, trim_of(r.unwrap()), reverse) && within(c, trim_of(r.unwrap())),
{
    if let Some(w) = r {
        lemma_reported(c, x, offset, reverse, w);
    }
}

pub broadcast proof fn lemma_reported_unused_any(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, r: Option<WillApply>)
    requires
        #[trigger] reported_unused(c, x, used, offset, reverse, r),
        text_ok(c),
    ensures
        r.is_some() ==> fits(c, x, offset, trim_of(r.unwrap()), reverse) && within(c, trim_of(r.unwrap())) && place(
            c,
            offset,
            trim_of(r.unwrap()),
            reverse,
        ) >= used,
{
    reveal(reported_unused);
    if let Some(w) = r {
        lemma_reported(c, x, offset, reverse, w);
    }
}

pub broadcast proof fn lemma_nearest_any(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int, r: Option<(isize, WillApply)>)
    requires
        #[trigger] nearest(c, x, used, offset, reverse, end, r),
        text_ok(c),
    ensures
        r.is_some() ==> ({
            let (d, w) = r.unwrap();
            &&& place(c, offset + d, trim_of(w), reverse) >= used
            &&& fits(c, x, offset + d, trim_of(w), reverse)
            &&& within(c, trim_of(w))
            &&& 0 <= place(c, offset + d, trim_of(w), reverse) <= x.len()
            &&& 0 <= redn0(trim_of(w)) <= 255
        }),
{
    if let Some((d, w)) = r {
        lemma_nearest(c, x, used, offset, reverse, end, d, w);
    }
}

/// two reports about the same unused lines agree
pub broadcast proof fn lemma_reported_unused_same(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, r: Option<WillApply>, q: Option<WillApply>)
    requires
        #[trigger] reported_unused(c, x, used, offset, reverse, r),
        #[trigger] reported_unused(c, x, used, offset, reverse, q),
    ensures
        r == q,
{
    if let Some(w) = r {
        lemma_reported_unused_some(c, x, used, offset, reverse, w);
    }
    if let Some(w) = q {
        lemma_reported_unused_some(c, x, used, offset, reverse, w);
    }
    if let (Some(v), Some(w)) = (r, q) {
        reveal(reported_unused);
        lemma_reported_same(c, x, offset, reverse, Some(v), Some(w));
    }
}

/// ---------- what patching a text does, clump by clump (C12, C14) ----------
/// what happened to one clump
pub ghost enum Ev {
    /// its source lines, trimmed, were found at `at` and replaced by its target lines, trimmed
    Put { at: int, d: Option<(u8, u8)>, clean: bool },
    /// its target lines, trimmed, were found at `at`
    Skip { at: int, d: Option<(u8, u8)>, clean: bool },
    /// neither, looking from this displacement
    Fail { offset: int },
}

pub open spec fn put_at(c: Clump<String>, offset: int, d: Option<(u8, u8)>, reverse: bool, clean: bool) -> Ev {
    Ev::Put { at: place(c, offset, d, reverse), d, clean }
}

pub open spec fn skip_at(c: Clump<String>, offset: int, d: Option<(u8, u8)>, reverse: bool, clean: bool) -> Ev {
    Ev::Skip { at: place(c, offset, d, !reverse), d, clean }
}

pub open spec fn ev_ok(c: Clump<String>, x: VSeq<String>, reverse: bool, used: int, e: Ev) -> bool {
    match e {
        Ev::Put { at, d, clean } => {
            &&& within(c, d)
            &&& used <= at
            &&& occurs(x, trimmed(c.src(reverse), d), at)
            &&& clean ==> d.is_none()
        },
        Ev::Skip { at, d, clean } => {
            &&& within(c, d)
            &&& occurs(x, trimmed(c.src(!reverse), d), at)
            &&& clean ==> d.is_none()
        },
        Ev::Fail { .. } => true,
    }
}

/// a failed clump fits nowhere in the part of the text that was searched
pub open spec fn fail_ok(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, used: int, e: Ev) -> bool {
    match e {
        Ev::Fail { offset } => hopeless(c, next, x, used, offset, reverse),
        _ => true,
    }
}

/// neither the source lines nor the target lines fit, here or nearby
#[verifier::opaque]
pub open spec fn hopeless(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, used: int, offset: int, reverse: bool) -> bool {
    &&& reported_unused(c, x, used, offset, reverse, None)
    &&& nearest(c, x, used, offset, reverse, window_end(c, next, x, offset, reverse), None)
    &&& reported(c, x, offset, !reverse, None)
    &&& nearest(c, x, used, offset, !reverse, window_end(c, next, x, offset, !reverse), None)
}

pub open spec fn next_of(l: VSeq<Clump<String>>, n: int) -> Option<Clump<String>> {
    if n + 1 < l.len() { Some(l[n + 1]) } else { None }
}

/// how much of the text is used up afterwards
pub open spec fn ev_used(c: Clump<String>, reverse: bool, used: int, e: Ev) -> int {
    match e {
        Ev::Put { at, d, .. } => at + trimmed(c.src(reverse), d).len(),
        Ev::Skip { at, d, .. } => if at + trimmed(c.src(!reverse), d).len() < used { used } else { at + trimmed(c.src(!reverse), d).len() },
        Ev::Fail { .. } => used,
    }
}

/// what is written: the text from the used part on, with the stretch replaced; or a conflict block
pub open spec fn ev_out(c: Clump<String>, x: VSeq<String>, reverse: bool, used: int, e: Ev) -> VSeq<u8> {
    match e {
        Ev::Put { at, d, .. } => cat(x.subrange(used, at)) + cat(trimmed(c.src(!reverse), d)),
        Ev::Skip { .. } => cat(x.subrange(used, ev_used(c, reverse, used, e))),
        Ev::Fail { .. } => conflict(c, reverse),
    }
}

pub open spec fn used_of(l: VSeq<Clump<String>>, reverse: bool, log: VSeq<Ev>) -> int
    decreases log.len(),
{
    if log.len() == 0 { 0 } else { ev_used(l[log.len() - 1], reverse, used_of(l, reverse, log.drop_last()), log.last()) }
}

pub open spec fn out_of(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>) -> VSeq<u8>
    decreases log.len(),
{
    if log.len() == 0 {
        VSeq::empty()
    } else {
        out_of(l, x, reverse, log.drop_last()) + ev_out(l[log.len() - 1], x, reverse, used_of(l, reverse, log.drop_last()), log.last())
    }
}

/// a possible history: one event per clump, each placed behind what the earlier ones used up
pub open spec fn log_ok(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>) -> bool
    decreases log.len(),
{
    log.len() == 0 || {
        &&& log_ok(l, x, reverse, log.drop_last())
        &&& ev_ok(l[log.len() - 1], x, reverse, used_of(l, reverse, log.drop_last()), log.last())
        &&& fail_ok(l[log.len() - 1], next_of(l, log.len() - 1), x, reverse, used_of(l, reverse, log.drop_last()), log.last())
        &&& 0 <= used_of(l, reverse, log) <= x.len()
    }
}

/// x patched: what the clumps leave, and the rest of x
pub open spec fn patched(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>) -> VSeq<u8> {
    out_of(l, x, reverse, log) + cat(x.subrange(used_of(l, reverse, log), x.len() as int))
}

/// the five counters: clean, fuzzy, already applied, already applied fuzzily, failed
pub open spec fn kind(e: Ev) -> int {
    match e {
        Ev::Put { clean, .. } => if clean { 0 } else { 1 },
        Ev::Skip { clean, .. } => if clean { 2 } else { 3 },
        Ev::Fail { .. } => 4,
    }
}

pub open spec fn tally(log: VSeq<Ev>, k: int) -> int
    decreases log.len(),
{
    if log.len() == 0 { 0 } else { tally(log.drop_last(), k) + (if kind(log.last()) == k { 1int } else { 0 }) }
}

/// the statistics count each event once, under its kind
pub open spec fn counted(s: Statistics, log: VSeq<Ev>) -> bool {
    &&& s.clean == tally(log, 0)
    &&& s.fuzzy == tally(log, 1)
    &&& s.already_applied == tally(log, 2)
    &&& s.already_applied_fuzzy == tally(log, 3)
    &&& s.failed == tally(log, 4)
}

/// e is what was done to the clump, given how much of the text was used up and what was written, before and after
#[verifier::opaque]
pub open spec fn did(c: Clump<String>, x: VSeq<String>, reverse: bool, u0: int, u1: int, w0: VSeq<u8>, w1: VSeq<u8>, e: Ev) -> bool {
    &&& ev_ok(c, x, reverse, u0, e)
    &&& u1 == ev_used(c, reverse, u0, e)
    &&& w1 == w0 + ev_out(c, x, reverse, u0, e)
}

pub proof fn lemma_did_fail(c: Clump<String>, x: VSeq<String>, reverse: bool, u: int, w: VSeq<u8>, offset: int)
    ensures
        did(c, x, reverse, u, u, w, w + conflict(c, reverse), Ev::Fail { offset }),
{
    reveal(did);
}

pub broadcast proof fn lemma_hopeless(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, used: int, offset: int, reverse: bool, other: bool)
    requires
        reported_unused(c, x, used, offset, reverse, None),
        nearest(c, x, used, offset, reverse, window_end(c, next, x, offset, reverse), None),
        reported(c, x, offset, other, None),
        #[trigger] nearest(c, x, used, offset, other, window_end(c, next, x, offset, other), None),
        other == !reverse,
    ensures
        #[trigger] hopeless(c, next, x, used, offset, reverse),
{
    reveal(hopeless);
}

/// C14: the last clump fails only if its source lines are nowhere in the unused text
pub proof fn theorem_failed(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, p: int)
    requires
        text_ok(c),
        fail_ok(c, None, x, reverse, used, Ev::Fail { offset }),
        used <= p,
    ensures
        !occurs(x, c.src(reverse), p),
{
    reveal(hopeless);
    if occurs(x, c.src(reverse), p) {
        theorem_search_finds(c, x, used, offset, reverse, p);
        reveal(reported);
        reveal(reported_unused);
        assert(trimmed(c.src(reverse), None) =~= c.src(reverse));
        assert(fits(c, x, offset, None, reverse));
    }
}

/// one event more, of this kind
pub open spec fn bumped(s: Statistics, t: Statistics, k: int) -> bool {
    &&& t.clean == s.clean + (if k == 0 { 1int } else { 0 })
    &&& t.fuzzy == s.fuzzy + (if k == 1 { 1int } else { 0 })
    &&& t.already_applied == s.already_applied + (if k == 2 { 1int } else { 0 })
    &&& t.already_applied_fuzzy == s.already_applied_fuzzy + (if k == 3 { 1int } else { 0 })
    &&& t.failed == s.failed + (if k == 4 { 1int } else { 0 })
}

#[verifier::opaque]
pub open spec fn stepped(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, u0: int, u1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics) -> bool {
    exists|e: Ev| #[trigger] did(c, x, reverse, u0, u1, w0, w1, e) && fail_ok(c, next, x, reverse, u0, e) && bumped(s, t, kind(e))
}

pub broadcast proof fn lemma_stepped(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, u0: int, u1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics, e: Ev)
    requires
        #[trigger] did(c, x, reverse, u0, u1, w0, w1, e),
        fail_ok(c, next, x, reverse, u0, e),
        bumped(s, t, kind(e)),
    ensures
        #[trigger] stepped(c, next, x, reverse, u0, u1, w0, w1, s, t),
{
    reveal(stepped);
}

pub proof fn the_step(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, u0: int, u1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics) -> (e: Ev)
    requires
        stepped(c, next, x, reverse, u0, u1, w0, w1, s, t),
    ensures
        did(c, x, reverse, u0, u1, w0, w1, e),
        fail_ok(c, next, x, reverse, u0, e),
        bumped(s, t, kind(e)),
{
    reveal(stepped);
    choose|e: Ev| #[trigger] did(c, x, reverse, u0, u1, w0, w1, e) && fail_ok(c, next, x, reverse, u0, e) && bumped(s, t, kind(e))
}

/// C14: every clump is counted exactly once
pub proof fn theorem_each_once(log: VSeq<Ev>)
    ensures
        tally(log, 0) + tally(log, 1) + tally(log, 2) + tally(log, 3) + tally(log, 4) == log.len(),
        forall|k: int| 0 <= #[trigger] tally(log, k) <= log.len(),
    decreases log.len(),
{
    if log.len() > 0 {
        theorem_each_once(log.drop_last());
        assert forall|k: int| 0 <= #[trigger] tally(log, k) <= log.len() by {
            assert(0 <= tally(log.drop_last(), k));
        }
    }
}

/// one clump further
pub proof fn lemma_run_step(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, w: VSeq<u8>, w0: VSeq<u8>, s: Statistics, u1: int, w1: VSeq<u8>, t: Statistics, e: Ev)
    requires
        run(l, x, reverse, log, used_of(l, reverse, log), w, w0, s),
        log.len() < l.len(),
        text_ok(l[log.len() as int]),
        did(l[log.len() as int], x, reverse, used_of(l, reverse, log), u1, w0, w1, e),
        fail_ok(l[log.len() as int], next_of(l, log.len() as int), x, reverse, used_of(l, reverse, log), e),
        bumped(s, t, kind(e)),
    ensures
        run(l, x, reverse, log.push(e), u1, w, w1, t),
{
    reveal(run);
    reveal(did);
    assert(log.push(e).drop_last() =~= log);
    lemma_log_used(l, x, reverse, log);
    let u = used_of(l, reverse, log);
    assert(w1 =~= w + (out_of(l, x, reverse, log) + ev_out(l[log.len() as int], x, reverse, u, e)));
}

/// what has been done after some of the clumps
#[verifier::opaque]
pub open spec fn run(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, used: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics) -> bool {
    &&& log_ok(l, x, reverse, log)
    &&& used == used_of(l, reverse, log)
    &&& w1 == w0 + out_of(l, x, reverse, log)
    &&& counted(s, log)
}

pub proof fn lemma_run_start(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, w: VSeq<u8>, s: Statistics)
    requires
        s == (Statistics { clean: 0, fuzzy: 0, already_applied: 0, already_applied_fuzzy: 0, failed: 0 }),
    ensures
        run(l, x, reverse, VSeq::empty(), 0, w, w, s),
{
    reveal(run);
    assert(w + VSeq::<u8>::empty() =~= w);
}

pub proof fn lemma_run_used(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, used: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics)
    requires
        run(l, x, reverse, log, used, w0, w1, s),
    ensures
        0 <= used <= x.len(),
        used == used_of(l, reverse, log),
        s.clean <= log.len(),
        s.fuzzy <= log.len(),
        s.already_applied <= log.len(),
        s.already_applied_fuzzy <= log.len(),
        s.failed <= log.len(),
{
    reveal(run);
    lemma_log_used(l, x, reverse, log);
    theorem_each_once(log);
    assert(tally(log, 0) <= log.len() && tally(log, 1) <= log.len() && tally(log, 2) <= log.len() && tally(log, 3) <= log.len() && tally(log, 4) <= log.len());
}

pub proof fn lemma_run_end(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, used: int, w0: VSeq<u8>, w1: VSeq<u8>, w2: VSeq<u8>, s: Statistics)
    requires
        run(l, x, reverse, log, used, w0, w1, s),
        log.len() == l.len(),
        w2 == w1 + cat(x.subrange(used, x.len() as int)),
    ensures
        w2 == w0 + patched(l, x, reverse, log),
        outcome(l, x, reverse, patched(l, x, reverse, log), s, log),
{
    reveal(run);
    assert(w2 =~= w0 + patched(l, x, reverse, log));
}

pub proof fn lemma_log_used(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>)
    requires
        log_ok(l, x, reverse, log),
    ensures
        0 <= used_of(l, reverse, log) <= x.len(),
{
}

/// every clump put cleanly where it says
pub open spec fn all_clean(l: VSeq<Clump<String>>, reverse: bool, n: int) -> VSeq<Ev> {
    VSeq::new(n as nat, |k: int| Ev::Put { at: l[k].start(reverse), d: None, clean: true })
}

/// so far everything went as an exact patch says
pub open spec fn exact_log(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, n: int, offset: int) -> bool {
    forall|y: VSeq<String>| #[trigger] exact(l, x, y, reverse) ==> log == all_clean(l, reverse, n) && offset == 0
}

pub proof fn lemma_all_clean(l: VSeq<Clump<String>>, x: VSeq<String>, y: VSeq<String>, reverse: bool, n: int)
    requires
        exact(l, x, y, reverse),
        0 <= n <= l.len(),
    ensures
        used_of(l, reverse, all_clean(l, reverse, n)) == gap_at(l, n, reverse),
        out_of(l, x, reverse, all_clean(l, reverse, n)) == cat(spliced(l, x, reverse, first(n))),
        tally(all_clean(l, reverse, n), 0) == n,
    decreases n,
{
    let log = all_clean(l, reverse, n);
    if n > 0 {
        lemma_all_clean(l, x, y, reverse, n - 1);
        lemma_exact_prefix(l, x, y, reverse, n - 1);
        assert(log.drop_last() =~= all_clean(l, reverse, n - 1));
        assert(first(n).drop_last() =~= first(n - 1));
        let c = l[n - 1];
        assert(trimmed(c.src(reverse), None) =~= c.src(reverse));
        assert(trimmed(c.src(!reverse), None) =~= c.src(!reverse));
        let p = spliced(l, x, reverse, first(n - 1));
        let q = x.subrange(gap_at(l, n - 1, reverse), c.start(reverse));
        lemma_cat_add(p, q);
        lemma_cat_add(p + q, c.src(!reverse));
    } else {
        assert(log =~= VSeq::empty());
        assert(first(n) =~= VSeq::empty());
    }
}

/// an exact patch gives y, all clumps cleanly (C06, C07)
pub proof fn lemma_exact_patched(l: VSeq<Clump<String>>, x: VSeq<String>, y: VSeq<String>, reverse: bool)
    requires
        exact(l, x, y, reverse),
    ensures
        patched(l, x, reverse, all_clean(l, reverse, l.len() as int)) == cat(y),
{
    let n = l.len() as int;
    lemma_all_clean(l, x, y, reverse, n);
    lemma_exact_prefix(l, x, y, reverse, n);
    lemma_exact_all(l, x, y, reverse);
    lemma_cat_add(spliced(l, x, reverse, first(n)), x.subrange(done(l, reverse, first(n)), x.len() as int));
}

/// an exact patch's next clump fits where it says, and is put there
pub proof fn lemma_exact_step(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, n: int, offset: int, now: int, u0: int, u1: int, w0: VSeq<u8>, w1: VSeq<u8>, e: Ev)
    requires
        exact_log(l, x, reverse, log, n, offset),
        0 <= n < l.len(),
        u0 == used_of(l, reverse, log),
        did(l[n], x, reverse, u0, u1, w0, w1, e),
        reported_unused(l[n], x, u0, offset, reverse, Some(WillApply::Cleanly)) ==> kind(e) == 0 && now == offset && u1 == place(
            l[n],
            offset,
            None,
            reverse,
        ) + trimmed(l[n].src(reverse), None).len(),
    ensures
        exact_log(l, x, reverse, log.push(e), n + 1, now),
{
    reveal(reported_unused);
    reveal(reported);
    reveal(did);
    assert(trimmed(l[n].src(reverse), None) =~= l[n].src(reverse));
    assert forall|y: VSeq<String>| #[trigger] exact(l, x, y, reverse) implies log.push(e) == all_clean(l, reverse, n + 1) && now == 0 by {
        assert(exact_at(l, x, y, reverse, n));
        reveal(exact_at);
        lemma_all_clean(l, x, y, reverse, n);
        assert(log.push(e) =~= all_clean(l, reverse, n + 1));
    }
}

/// the outcome of patching x
pub open spec fn outcome(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, out: VSeq<u8>, s: Statistics, log: VSeq<Ev>) -> bool {
    &&& log.len() == l.len()
    &&& log_ok(l, x, reverse, log)
    &&& out == patched(l, x, reverse, log)
    &&& counted(s, log)
}

/// an exact patch leads to y and is reported to apply cleanly throughout
pub open spec fn text_exact_gives(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, out: VSeq<u8>, s: Statistics) -> bool {
    forall|y: VSeq<String>| #[trigger] exact(l, x, y, reverse) ==> out == cat(y) && s.clean == l.len() && s.fuzzy == 0
        && s.already_applied == 0 && s.already_applied_fuzzy == 0 && s.failed == 0
}

pub proof fn lemma_text_exact_out(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, out: VSeq<u8>, s: Statistics, log: VSeq<Ev>, offset: int)
    requires
        exact_log(l, x, reverse, log, l.len() as int, offset),
        outcome(l, x, reverse, out, s, log),
    ensures
        text_exact_gives(l, x, reverse, out, s),
{
    assert forall|y: VSeq<String>| #[trigger] exact(l, x, y, reverse) implies out == cat(y) && s.clean == l.len() && s.fuzzy == 0
        && s.already_applied == 0 && s.already_applied_fuzzy == 0 && s.failed == 0 by {
        lemma_exact_patched(l, x, y, reverse);
        lemma_all_clean(l, x, y, reverse, l.len() as int);
        theorem_each_once(log);
    }
}

/// the clumps of a patch, as values
pub open spec fn texts<C: TextClumpBasics>(l: VSeq<C>) -> VSeq<Clump<String>> {
    VSeq::new(l.len(), |k: int| l[k].lines())
}

pub open spec fn all_text_ok(l: VSeq<Clump<String>>) -> bool {
    forall|k: int| 0 <= k < l.len() ==> text_ok(#[trigger] l[k])
}

pub proof fn lemma_texts_at<C: TextClumpBasics>(l: VSeq<C>, n: int)
    requires
        all_text_ok(texts(l)),
        0 <= n < l.len(),
    ensures
        texts(l)[n] == l[n].lines(),
        text_ok(l[n].lines()),
{
    assert(text_ok(texts(l)[n]));
}

pub proof fn lemma_text_ok(c: Clump<String>)
    requires
        text_ok(c),
    ensures
        0 <= c.start(false) <= isize::MAX / 8,
        0 <= c.start(true) <= isize::MAX / 8,
{
}

/// C09 for text: the clump's resulting lines - all, or all but some of its context - are somewhere in x
pub open spec fn there(c: Clump<String>, x: VSeq<String>, reverse: bool) -> bool {
    found(c, c.src(!reverse), x)
}

pub open spec fn found(c: Clump<String>, lines: VSeq<String>, x: VSeq<String>) -> bool {
    exists|d: Option<(u8, u8)>, p: int| within(c, d) && #[trigger] occurs(x, trimmed(lines, d), p)
}

pub proof fn lemma_there(c: Clump<String>, x: VSeq<String>, reverse: bool, d: Option<(u8, u8)>, p: int)
    requires
        within(c, d),
        occurs(x, trimmed(c.src(!reverse), d), p),
    ensures
        there(c, x, reverse),
{
}

pub broadcast proof fn lemma_reported_there(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, other: bool, r: Option<WillApply>)
    requires
        #[trigger] reported(c, x, offset, other, r),
        text_ok(c),
        r.is_some(),
        other == !reverse,
    ensures
        #[trigger] there(c, x, reverse),
{
    let w = r.unwrap();
    lemma_reported(c, x, offset, other, w);
    lemma_there(c, x, reverse, trim_of(w), place(c, offset, trim_of(w), other));
}

pub broadcast proof fn lemma_nearest_there(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, other: bool, end: int, r: Option<(isize, WillApply)>)
    requires
        #[trigger] nearest(c, x, used, offset, other, end, r),
        text_ok(c),
        r.is_some(),
        other == !reverse,
    ensures
        #[trigger] there(c, x, reverse),
{
    let (d, w) = r.unwrap();
    lemma_nearest(c, x, used, offset, other, end, d, w);
    lemma_there(c, x, reverse, trim_of(w), place(c, offset + d, trim_of(w), other));
}
/// ---------- where each clump is looked for (C23) ----------
/// the displacement at which the clump was found, or the old one
pub open spec fn shift(c: Clump<String>, reverse: bool, offset: int, e: Ev) -> int {
    match e {
        Ev::Put { at, d, .. } => at - place(c, 0, d, reverse),
        Ev::Skip { at, d, .. } => at - place(c, 0, d, !reverse),
        Ev::Fail { .. } => offset,
    }
}

pub open spec fn put_here(c: Clump<String>, x: VSeq<String>, reverse: bool, used: int, offset: int, e: Ev) -> bool {
    exists|w: WillApply| #[trigger] reported_unused(c, x, used, offset, reverse, Some(w)) && e == put_at(c, offset, trim_of(w), reverse, w is Cleanly)
}

pub open spec fn put_near(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, used: int, offset: int, e: Ev) -> bool {
    &&& reported_unused(c, x, used, offset, reverse, None)
    &&& exists|r: (isize, WillApply), end: int| end == window_end(c, next, x, offset, reverse) && #[trigger] nearest(c, x, used, offset, reverse, end, Some(r))
        && e == put_at(c, offset + r.0, trim_of(r.1), reverse, false)
}

pub open spec fn not_put(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, used: int, offset: int) -> bool {
    &&& reported_unused(c, x, used, offset, reverse, None)
    &&& nearest(c, x, used, offset, reverse, window_end(c, next, x, offset, reverse), None)
}

pub open spec fn skip_here(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, used: int, offset: int, e: Ev) -> bool {
    &&& not_put(c, next, x, reverse, used, offset)
    &&& exists|w: WillApply, other: bool| other == !reverse && #[trigger] reported(c, x, offset, other, Some(w)) && e == skip_at(c, offset, trim_of(w), reverse, w is Cleanly)
}

pub open spec fn skip_near(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, used: int, offset: int, e: Ev) -> bool {
    &&& not_put(c, next, x, reverse, used, offset)
    &&& reported(c, x, offset, !reverse, None)
    &&& exists|r: (isize, WillApply), other: bool, end: int| other == !reverse && end == window_end(c, next, x, offset, other) && #[trigger] nearest(c, x, used, offset, other, end, Some(r))
        && e == skip_at(c, offset + r.0, trim_of(r.1), reverse, false)
}

/// the first of these to succeed: the lines where the displacement puts them, nearest to that, the resulting lines
/// there, nearest to that
#[verifier::opaque]
pub open spec fn sought(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, used: int, offset: int, e: Ev) -> bool {
    ||| put_here(c, x, reverse, used, offset, e)
    ||| put_near(c, next, x, reverse, used, offset, e)
    ||| skip_here(c, next, x, reverse, used, offset, e)
    ||| skip_near(c, next, x, reverse, used, offset, e)
    ||| e == (Ev::Fail { offset }) && hopeless(c, next, x, used, offset, reverse)
}

pub open spec fn shift_of(l: VSeq<Clump<String>>, reverse: bool, log: VSeq<Ev>) -> int
    decreases log.len(),
{
    if log.len() == 0 { 0 } else { shift(l[log.len() - 1], reverse, shift_of(l, reverse, log.drop_last()), log.last()) }
}

/// every clump was sought from the displacement at which the last one found was found
pub open spec fn followed(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>) -> bool
    decreases log.len(),
{
    log.len() == 0 || {
        &&& followed(l, x, reverse, log.drop_last())
        &&& sought(
            l[log.len() - 1],
            next_of(l, log.len() - 1),
            x,
            reverse,
            used_of(l, reverse, log.drop_last()),
            shift_of(l, reverse, log.drop_last()),
            log.last(),
        )
    }
}

/// what was written and counted is that
#[verifier::opaque]
pub open spec fn pursuit(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, used: int, offset: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics) -> bool {
    &&& followed(l, x, reverse, log)
    &&& used == used_of(l, reverse, log)
    &&& offset == shift_of(l, reverse, log)
    &&& w1 == w0 + out_of(l, x, reverse, log)
    &&& counted(s, log)
}

pub open spec fn pursued(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics) -> bool {
    exists|log: VSeq<Ev>| {
        &&& log.len() == l.len()
        &&& #[trigger] followed(l, x, reverse, log)
        &&& w1 == w0 + patched(l, x, reverse, log)
        &&& counted(s, log)
    }
}

#[verifier::opaque]
pub open spec fn sought_step(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, u0: int, u1: int, o0: int, o1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics) -> bool {
    exists|e: Ev| #[trigger] did(c, x, reverse, u0, u1, w0, w1, e) && sought(c, next, x, reverse, u0, o0, e) && o1 == shift(c, reverse, o0, e) && bumped(s, t, kind(e))
}

pub broadcast proof fn lemma_sought_put_here(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, u0: int, u1: int, o0: int, o1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics, e: Ev, r: Option<WillApply>)
    requires
        #[trigger] did(c, x, reverse, u0, u1, w0, w1, e),
        #[trigger] reported_unused(c, x, u0, o0, reverse, r),
        r.is_some(),
        e == put_at(c, o0, trim_of(r->0), reverse, r->0 is Cleanly),
        o1 == o0,
        bumped(s, t, kind(e)),
    ensures
        #[trigger] sought_step(c, next, x, reverse, u0, u1, o0, o1, w0, w1, s, t),
{
    reveal(sought_step);
    reveal(sought);
    assert(reported_unused(c, x, u0, o0, reverse, Some(r->0)));
    assert(put_here(c, x, reverse, u0, o0, e));
}

pub broadcast proof fn lemma_sought_put_near(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, u0: int, u1: int, o0: int, o1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics, e: Ev, end: int, r: Option<(isize, WillApply)>)
    requires
        #[trigger] did(c, x, reverse, u0, u1, w0, w1, e),
        reported_unused(c, x, u0, o0, reverse, None),
        #[trigger] nearest(c, x, u0, o0, reverse, end, r),
        end == window_end(c, next, x, o0, reverse),
        r.is_some(),
        o1 == o0 + (r->0).0,
        e == put_at(c, o1, trim_of((r->0).1), reverse, false),
        bumped(s, t, kind(e)),
    ensures
        #[trigger] sought_step(c, next, x, reverse, u0, u1, o0, o1, w0, w1, s, t),
{
    reveal(sought_step);
    reveal(sought);
    assert(nearest(c, x, u0, o0, reverse, window_end(c, next, x, o0, reverse), Some(r->0)));
    assert(put_near(c, next, x, reverse, u0, o0, e));
}

pub broadcast proof fn lemma_sought_skip_here(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, other: bool, u0: int, u1: int, o0: int, o1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics, e: Ev, r: Option<WillApply>)
    requires
        #[trigger] did(c, x, reverse, u0, u1, w0, w1, e),
        not_put(c, next, x, reverse, u0, o0),
        #[trigger] reported(c, x, o0, other, r),
        other == !reverse,
        r.is_some(),
        o1 == o0,
        e == skip_at(c, o0, trim_of(r->0), reverse, r->0 is Cleanly),
        bumped(s, t, kind(e)),
    ensures
        #[trigger] sought_step(c, next, x, reverse, u0, u1, o0, o1, w0, w1, s, t),
{
    reveal(sought_step);
    reveal(sought);
    assert(reported(c, x, o0, !reverse, Some(r->0)));
    assert(skip_here(c, next, x, reverse, u0, o0, e));
}

pub broadcast proof fn lemma_sought_skip_near(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, other: bool, u0: int, u1: int, o0: int, o1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics, e: Ev, end: int, r: Option<(isize, WillApply)>)
    requires
        #[trigger] did(c, x, reverse, u0, u1, w0, w1, e),
        not_put(c, next, x, reverse, u0, o0),
        reported(c, x, o0, other, None),
        #[trigger] nearest(c, x, u0, o0, other, end, r),
        other == !reverse,
        end == window_end(c, next, x, o0, other),
        r.is_some(),
        o1 == o0 + (r->0).0,
        e == skip_at(c, o1, trim_of((r->0).1), reverse, false),
        bumped(s, t, kind(e)),
    ensures
        #[trigger] sought_step(c, next, x, reverse, u0, u1, o0, o1, w0, w1, s, t),
{
    reveal(sought_step);
    reveal(sought);
    assert(nearest(c, x, u0, o0, !reverse, window_end(c, next, x, o0, !reverse), Some(r->0)));
    assert(skip_near(c, next, x, reverse, u0, o0, e));
}

pub broadcast proof fn lemma_sought_fail(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, u0: int, u1: int, o0: int, o1: int, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics, e: Ev)
    requires
        #[trigger] did(c, x, reverse, u0, u1, w0, w1, e),
        e == (Ev::Fail { offset: o0 }),
        hopeless(c, next, x, u0, o0, reverse),
        o1 == o0,
        bumped(s, t, kind(e)),
    ensures
        #[trigger] sought_step(c, next, x, reverse, u0, u1, o0, o1, w0, w1, s, t),
{
    reveal(sought_step);
    reveal(sought);
}

pub proof fn lemma_pursuit_start(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, w: VSeq<u8>, s: Statistics)
    requires
        s == (Statistics { clean: 0, fuzzy: 0, already_applied: 0, already_applied_fuzzy: 0, failed: 0 }),
    ensures
        pursuit(l, x, reverse, VSeq::empty(), 0, 0, w, w, s),
{
    reveal(pursuit);
    assert(w + VSeq::<u8>::empty() =~= w);
}

/// one clump further
pub proof fn lemma_pursuit_step(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, u0: int, u1: int, o0: int, o1: int, w: VSeq<u8>, w0: VSeq<u8>, w1: VSeq<u8>, s: Statistics, t: Statistics) -> (e: Ev)
    requires
        log.len() < l.len(),
        pursuit(l, x, reverse, log, u0, o0, w, w0, s),
        sought_step(l[log.len() as int], next_of(l, log.len() as int), x, reverse, u0, u1, o0, o1, w0, w1, s, t),
    ensures
        pursuit(l, x, reverse, log.push(e), u1, o1, w, w1, t),
{
    reveal(pursuit);
    reveal(sought_step);
    reveal(did);
    let c = l[log.len() as int];
    let next = next_of(l, log.len() as int);
    let e = choose|e: Ev| #[trigger] did(c, x, reverse, u0, u1, w0, w1, e) && sought(c, next, x, reverse, u0, o0, e) && o1 == shift(c, reverse, o0, e) && bumped(s, t, kind(e));
    assert(log.push(e).drop_last() =~= log);
    assert(w1 =~= w + (out_of(l, x, reverse, log) + ev_out(c, x, reverse, u0, e)));
    e
}

pub proof fn lemma_pursuit_end(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, used: int, offset: int, w0: VSeq<u8>, w1: VSeq<u8>, w2: VSeq<u8>, s: Statistics)
    requires
        log.len() == l.len(),
        pursuit(l, x, reverse, log, used, offset, w0, w1, s),
        w2 == w1 + cat(x.subrange(used, x.len() as int)),
    ensures
        pursued(l, x, reverse, w0, w2, s),
{
    reveal(pursuit);
    assert(w2 =~= w0 + patched(l, x, reverse, log));
}

/// C23: what `followed` says about one clump, whatever became of the others
pub proof fn theorem_followed(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, log: VSeq<Ev>, n: int)
    requires
        followed(l, x, reverse, log),
        0 <= n < log.len() <= l.len(),
    ensures
        sought(l[n], next_of(l, n), x, reverse, used_of(l, reverse, log.take(n)), shift_of(l, reverse, log.take(n)), log[n]),
        shift_of(l, reverse, log.take(n + 1)) == shift(l[n], reverse, shift_of(l, reverse, log.take(n)), log[n]),
    decreases log.len(),
{
    assert(log.take(n + 1).drop_last() =~= log.take(n));
    if n == log.len() - 1 {
        assert(log.drop_last() =~= log.take(n));
        assert(log.take(n + 1) =~= log);
    } else {
        theorem_followed(l, x, reverse, log.drop_last(), n);
        assert(log.drop_last().take(n) =~= log.take(n));
    }
}

/// C23: what happens is determined by the clumps and the text
pub proof fn theorem_sought_once(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, used: int, offset: int, e: Ev, f: Ev)
    requires
        sought(c, next, x, reverse, used, offset, e),
        sought(c, next, x, reverse, used, offset, f),
    ensures
        e == f,
{
    reveal(sought);
    reveal(hopeless);
    broadcast use {lemma_reported_unused_same, lemma_reported_same_one, lemma_nearest_same};
}

pub broadcast proof fn lemma_reported_same_one(c: Clump<String>, x: VSeq<String>, offset: int, reverse: bool, r: Option<WillApply>, q: Option<WillApply>)
    requires
        #[trigger] reported(c, x, offset, reverse, r),
        #[trigger] reported(c, x, offset, reverse, q),
    ensures
        r == q,
{
    lemma_reported_same(c, x, offset, reverse, r, q);
}

/// two searches from the same displacement agree
pub broadcast proof fn lemma_nearest_same(c: Clump<String>, x: VSeq<String>, used: int, offset: int, reverse: bool, end: int, r: Option<(isize, WillApply)>, q: Option<(isize, WillApply)>)
    requires
        #[trigger] nearest(c, x, used, offset, reverse, end, r),
        #[trigger] nearest(c, x, used, offset, reverse, end, q),
    ensures
        r == q,
{
    if r.is_some() && q.is_some() {
        let (a, v) = r->0;
        let (b, w) = q->0;
        let i = if a < 0 { -a } else { a as int };
        let j = if b < 0 { -b } else { b as int };
        assert(back_at(c, x, used, offset, reverse, i) || on_at(c, x, used, offset, reverse, end, i));
        assert(back_at(c, x, used, offset, reverse, j) || on_at(c, x, used, offset, reverse, end, j));
        assert(i == j);
        assert(a == b);
        if a < 0 {
            lemma_reported_same(c, x, offset + a, reverse, Some(v), Some(w));
        } else {
            lemma_reported_unused_same(c, x, used, offset + a, reverse, Some(v), Some(w));
        }
    } else if r.is_some() {
        let (a, v) = r->0;
        let i = if a < 0 { -a } else { a as int };
        assert(back_at(c, x, used, offset, reverse, i) || on_at(c, x, used, offset, reverse, end, i));
    } else if q.is_some() {
        let (b, w) = q->0;
        let j = if b < 0 { -b } else { b as int };
        assert(back_at(c, x, used, offset, reverse, j) || on_at(c, x, used, offset, reverse, end, j));
    }
}

/// the clump's resulting lines are where the displacement puts them, or nearest to that
pub open spec fn seen(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, o0: int, o1: int) -> bool {
    ||| exists|w: WillApply, other: bool| other == !reverse && #[trigger] reported(c, x, o0, other, Some(w)) && o1 == o0
    ||| reported(c, x, o0, !reverse, None) && exists|r: (isize, WillApply), other: bool, end: int| other == !reverse && end == window_end(c, next, x, o0, other) && #[trigger] nearest(c, x, 0, o0, other, end, Some(r)) && o1 == o0 + r.0
}

#[verifier::opaque]
pub open spec fn unseen(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, o0: int) -> bool {
    reported(c, x, o0, !reverse, None) && nearest(c, x, 0, o0, !reverse, window_end(c, next, x, o0, !reverse), None)
}

/// the first n clumps are seen in turn, each from the displacement of the one before
pub open spec fn is_trace(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, n: int, t: VSeq<int>) -> bool {
    &&& t.len() == n + 1
    &&& t[0] == 0
    &&& forall|k: int| 0 <= k < n ==> #[trigger] seen(l[k], next_of(l, k), x, reverse, t[k], t[k + 1])
}

#[verifier::opaque]
pub open spec fn traced(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, n: int, offset: int) -> bool {
    exists|t: VSeq<int>| #[trigger] is_trace(l, x, reverse, n, t) && t[n] == offset
}

pub proof fn lemma_traced(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, n: int, o0: int, o1: int)
    requires
        traced(l, x, reverse, n, o0),
        n >= 0,
        seen(l[n], next_of(l, n), x, reverse, o0, o1),
    ensures
        traced(l, x, reverse, n + 1, o1),
{
    reveal(traced);
    let t = choose|t: VSeq<int>| #[trigger] is_trace(l, x, reverse, n, t) && t[n] == o0;
    let v = t.push(o1);
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] seen(l[k], next_of(l, k), x, reverse, v[k], v[k + 1]) by {
        if k < n {
            assert(seen(l[k], next_of(l, k), x, reverse, t[k], t[k + 1]));
        }
    }
    assert(is_trace(l, x, reverse, n + 1, v));
}

pub open spec fn verdict(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, yes: bool) -> bool {
    if yes {
        exists|o: int| #[trigger] traced(l, x, reverse, l.len() as int, o)
    } else {
        exists|n: int, o: int| 0 <= n < l.len() && #[trigger] traced(l, x, reverse, n, o) && unseen(l[n], next_of(l, n), x, reverse, o)
    }
}

pub proof fn lemma_traced_start(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool)
    ensures
        traced(l, x, reverse, 0, 0),
{
    reveal(traced);
    assert(is_trace(l, x, reverse, 0, seq![0int]));
}

pub broadcast proof fn lemma_traced_here(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, other: bool, n: int, m: int, c: Clump<String>, o0: int, r: Option<WillApply>)
    requires
        #[trigger] traced(l, x, reverse, n, o0),
        #[trigger] reported(c, x, o0, other, r),
        0 <= n < l.len(),
        m == n + 1,
        c == l[n],
        r.is_some(),
        other == !reverse,
    ensures
        #[trigger] traced(l, x, reverse, m, o0),
{
    assert(reported(c, x, o0, !reverse, Some(r->0)));
    lemma_traced(l, x, reverse, n, o0, o0);
}

pub broadcast proof fn lemma_traced_near(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, other: bool, n: int, m: int, c: Clump<String>, o0: int, o1: int, end: int, r: Option<(isize, WillApply)>)
    requires
        #[trigger] traced(l, x, reverse, n, o0),
        reported(c, x, o0, other, None),
        #[trigger] nearest(c, x, 0, o0, other, end, r),
        0 <= n < l.len(),
        m == n + 1,
        c == l[n],
        end == window_end(c, next_of(l, n), x, o0, other),
        r.is_some(),
        o1 == o0 + (r->0).0,
        other == !reverse,
    ensures
        #[trigger] traced(l, x, reverse, m, o1),
{
    assert(nearest(c, x, 0, o0, !reverse, window_end(c, next_of(l, n), x, o0, !reverse), Some(r->0)));
    lemma_traced(l, x, reverse, n, o0, o1);
}

pub broadcast proof fn lemma_unseen(c: Clump<String>, next: Option<Clump<String>>, x: VSeq<String>, reverse: bool, other: bool, o0: int, end: int)
    requires
        reported(c, x, o0, other, None),
        #[trigger] nearest(c, x, 0, o0, other, end, None),
        end == window_end(c, next, x, o0, other),
        other == !reverse,
    ensures
        #[trigger] unseen(c, next, x, reverse, o0),
{
    reveal(unseen);
}
@pin struct Statistics
Debug Default
@item trait TextClumpBasics
/// what the clump says
spec fn lines(&self) -> Clump<String>;
/// ... is what its extents say
proof fn lemma_lines(&self)
    requires
        text_ok(self.lines()),
    ensures
        self.sp_ok(),
        self.sp_start(false) == self.lines().start(false),
        self.sp_start(true) == self.lines().start(true),
        self.sp_end(false) == self.lines().end(false),
        self.sp_end(true) == self.lines().end(true),
;
@fn trait TextClumpBasics::context_lengths
@ret r
    requires
        text_ok(self.lines()),
    ensures
        r.0 == self.lines().c0,
        r.1 == self.lines().c1,
@fn trait TextClumpBasics::before_lines
@ret r
    requires
        text_ok(self.lines()),
        range.is_some() ==> range.unwrap().0 <= range.unwrap().1 <= self.lines().src(reverse).len(),
    ensures
        range.is_some() ==> yields(r, self.lines().src(reverse).subrange(range.unwrap().0 as int, range.unwrap().1 as int)),
        range.is_none() ==> yields(r, self.lines().src(reverse)),
@fn trait TextClumpBasics::after_lines
@ret r
    requires
        text_ok(self.lines()),
        range.is_some() ==> range.unwrap().0 <= range.unwrap().1 <= self.lines().src(!reverse).len(),
    ensures
        range.is_some() ==> yields(r, self.lines().src(!reverse).subrange(range.unwrap().0 as int, range.unwrap().1 as int)),
        range.is_none() ==> yields(r, self.lines().src(!reverse)),
@fn trait ApplyClumpFuzzy::before_adjusted_start
@ret r
    requires
        text_ok(self.lines()),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
    ensures
        r == place(self.lines(), offset as int, reductions, reverse),
@ghost start
    proof { self.lemma_lines(); }
@fn trait ApplyClumpFuzzy::after_adjusted_start
@ret r
    requires
        text_ok(self.lines()),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
    ensures
        r == place(self.lines(), offset as int, reductions, !reverse),
@fn trait ApplyClumpFuzzy::before_adjusted_length
@ret r
    requires
        text_ok(self.lines()),
        within(self.lines(), reductions),
    ensures
        r == self.lines().src(reverse).len() - redn0(reductions) - redn1(reductions),
@ghost start
    proof { self.lemma_lines(); }
@fn trait ApplyClumpFuzzy::after_adjusted_length
@ret r
    requires
        text_ok(self.lines()),
        within(self.lines(), reductions),
    ensures
        r == self.lines().src(!reverse).len() - redn0(reductions) - redn1(reductions),
@fn trait ApplyClumpFuzzy::before_is_subsequence_in_at
@ret r
    requires
        text_ok(self.lines()),
        within(self.lines(), reductions),
        at <= isize::MAX,
    ensures
        r == occurs(patchable.0@, trimmed(self.lines().src(reverse), reductions), at as int),
@closure 1 (&String, &String) -> (q: bool)
    ensures
        q == vx_p.0.eq_spec(vx_p.1),
@ghost start
    proof {
        self.lemma_lines();
        lemma_item_ok_string();
    }
@ghost end
    proof {
        let x = patchable.0@;
        let sub = trimmed(self.lines().src(reverse), reductions);
        if at + sub.len() <= x.len() {
            let w = x.subrange(at as int, at as int + sub.len());
            let a = sub.as_ref();
            let b = w.as_ref();
            let z = a.zip_truncate(b);
            if vx_r {
                assert forall|i: int| 0 <= i < sub.len() implies #[trigger] w[i] == sub[i] by {
                    assert(z[i] == (a[i], b[i]));
                }
                assert(w =~= sub);
            } else {
                assert(exists|i: int| 0 <= i < z.len() && !(*z[i].0).eq_spec(&*#[trigger] z[i].1));
                let i = choose|i: int| 0 <= i < z.len() && !(*z[i].0).eq_spec(&*#[trigger] z[i].1);
                assert(z[i] == (a[i], b[i]));
                assert(w[i] != sub[i]);
            }
        }
    }
@fn trait ApplyClumpFuzzy::before_write_into
@ret r
    requires
        text_ok(self.lines()),
        within(self.lines(), reductions),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + cat(trimmed(self.lines().src(reverse), reductions)),
@ghost start
    proof {
        self.lemma_lines();
        assert(trimmed(self.lines().src(reverse), None) =~= self.lines().src(reverse));
    }
@loop 1 it
    invariant
        (*into).sink() == (*old(into)).sink(),
        it.seq().len() == trimmed(self.lines().src(reverse), reductions).len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == trimmed(self.lines().src(reverse), reductions)[k],
        (*into).written() == (*old(into)).written() + cat(trimmed(self.lines().src(reverse), reductions).take(it.index())),
@loop 2 it
    invariant
        (*into).sink() == (*old(into)).sink(),
        it.seq().len() == self.lines().src(reverse).len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.lines().src(reverse)[k],
        (*into).written() == (*old(into)).written() + cat(self.lines().src(reverse).take(it.index())),
@fn trait ApplyClumpFuzzy::after_write_into
@ret r
    requires
        text_ok(self.lines()),
        within(self.lines(), reductions),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + cat(trimmed(self.lines().src(!reverse), reductions)),
@fn trait ApplyClumpFuzzy::will_apply
@ret r
    requires
        text_ok(self.lines()),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
    ensures
        reported(self.lines(), patchable.0@, offset as int, reverse, r),
@loop 1
    invariant
        text_ok(self.lines()),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
        start == place(self.lines(), offset as int, None, reverse),
        start_context_len == self.lines().c0,
        end_context_len == self.lines().c1,
        max_reduction == longer(self.lines()),
        !fits(self.lines(), patchable.0@, offset as int, None, reverse),
        no_cut_below(self.lines(), patchable.0@, offset as int, reverse, redn as int),
@ghost start
    proof { reveal(reported); }
@ghost loop 1 start
    proof {
        reveal(reported);
        assert(cut(self.lines(), redn as int).is_some());
    }
@fn trait ApplyClumpFuzzy::will_apply_unconsumed
@ret r
    requires
        text_ok(self.lines()),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
        0 <= pd.sp_consumed() <= isize::MAX,
    ensures
        reported_unused(self.lines(), pd.sp_data().0@, pd.sp_consumed(), offset as int, reverse, r),
@ghost start
    proof { reveal(reported_unused); }
@fn trait ApplyClumpFuzzy::apply_into
@ret r
    requires
        text_ok(self.lines()),
        within(self.lines(), reductions),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
        fits(self.lines(), old(pd).sp_data().0@, offset as int, reductions, reverse),
        0 <= old(pd).sp_consumed() <= place(self.lines(), offset as int, reductions, reverse),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> {
            &&& final(pd).sp_data() == old(pd).sp_data()
            &&& final(pd).sp_consumed() == place(self.lines(), offset as int, reductions, reverse) + trimmed(self.lines().src(reverse), reductions).len()
            &&& did(
                self.lines(),
                old(pd).sp_data().0@,
                reverse,
                old(pd).sp_consumed(),
                final(pd).sp_consumed(),
                (*old(into)).written(),
                (*final(into)).written(),
                put_at(self.lines(), offset as int, reductions, reverse, false),
            )
            &&& reductions.is_none() ==> did(
                self.lines(),
                old(pd).sp_data().0@,
                reverse,
                old(pd).sp_consumed(),
                final(pd).sp_consumed(),
                (*old(into)).written(),
                (*final(into)).written(),
                put_at(self.lines(), offset as int, reductions, reverse, true),
            )
        },
@ghost end
    proof {
        reveal(did);
        if vx_r.is_ok() {
            let c = self.lines();
            let p = cat(pd.sp_data().0@.subrange(old(pd).sp_consumed(), place(c, offset as int, reductions, reverse)));
            let q = cat(trimmed(c.src(!reverse), reductions));
            assert((*old(into)).written() + p + q =~= (*old(into)).written() + (p + q));
        }
    }
@ghost start
    proof {
        ax_len_strings(old(pd).sp_data().0);
        assert(old(pd).sp_data().0@.subrange(old(pd).sp_consumed(), old(pd).sp_consumed()) =~= VSeq::empty());
    }
@fn trait ApplyClumpFuzzy::will_apply_nearby
@ret r
    requires
        text_ok(self.lines()),
        next_clump.is_some() ==> text_ok(next_clump.unwrap().lines()),
        -(isize::MAX / 4) <= offset <= isize::MAX / 4,
        0 <= pd.sp_consumed() <= pd.sp_data().0@.len(),
    ensures
        nearest(
            self.lines(),
            pd.sp_data().0@,
            pd.sp_consumed(),
            offset as int,
            reverse,
            window_end(self.lines(), if next_clump.is_some() { Some(next_clump.unwrap().lines()) } else { None }, pd.sp_data().0@, offset as int, reverse),
            r,
        ),
@ghost start
    proof { ax_len_strings(pd.sp_data().0); }
@ghost before loop 1
    let ghost vx_c = self.lines();
    let ghost vx_x = pd.sp_data().0@;
    let ghost vx_u = pd.sp_consumed();
    let ghost vx_p = place(vx_c, offset as int, None, reverse);
    let ghost vx_e = window_end(vx_c, if next_clump.is_some() { Some(next_clump.unwrap().lines()) } else { None }, vx_x, offset as int, reverse);
    proof {
        ax_len_strings(pd.sp_data().0);
        assert(not_after == vx_e);
    }
@loop 1
    invariant_except_break
        vx_next >= 1,
        vx_next - 1 <= 0 || vx_next - 1 <= vx_p - vx_u + 1 || vx_next - 1 <= vx_e - vx_p + 1,
        !backward_done ==> vx_next == 1 || vx_p - (vx_next - 1) >= vx_u,
        !forward_done ==> vx_next == 1 || vx_p + (vx_next - 1) <= vx_e,
        backward_done && forward_done ==> false,
        none_nearer(vx_c, vx_x, vx_u, offset as int, reverse, vx_e, vx_next as int),
    invariant
        text_ok(self.lines()),
        vx_c == self.lines(),
        vx_x == pd.sp_data().0@,
        vx_u == pd.sp_consumed(),
        vx_p == place(vx_c, offset as int, None, reverse),
        vx_e == not_after,
        vx_e == window_end(vx_c, if next_clump.is_some() { Some(next_clump.unwrap().lines()) } else { None }, vx_x, offset as int, reverse),
        -(isize::MAX / 4) <= offset <= isize::MAX / 4,
        0 <= pd.sp_consumed() <= pd.sp_data().0@.len() <= isize::MAX / 24,
        vx_e <= isize::MAX / 2 - 1000,
        backward_done ==> vx_next > 1 && vx_p - (vx_next - 1) < vx_u,
        forward_done ==> vx_next > 1 && vx_p + (vx_next - 1) > vx_e,
    ensures
        nowhere(vx_c, vx_x, vx_u, offset as int, reverse, vx_e),
    decreases
        (if vx_p - vx_u > vx_e - vx_p { vx_p - vx_u } else { vx_e - vx_p }) + 3 - vx_next,
@ghost loop 1 start
    broadcast use {lemma_reported_some, lemma_reported_unused_some};
@ghost then 8
    proof {
        lemma_nowhere(vx_c, vx_x, vx_u, offset as int, reverse, vx_e, vx_next as int);
    }
@fn trait ApplyClumpFuzzy::is_already_applied
@ret r
    requires
        text_ok(self.lines()),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
    ensures
        reported(self.lines(), patchable.0@, offset as int, !reverse, r),
@fn trait ApplyClumpFuzzy::is_already_applied_nearby
@ret r
    requires
        text_ok(self.lines()),
        next_clump.is_some() ==> text_ok(next_clump.unwrap().lines()),
        -(isize::MAX / 4) <= offset <= isize::MAX / 4,
        0 <= pd.sp_consumed() <= pd.sp_data().0@.len(),
    ensures
        nearest(
            self.lines(),
            pd.sp_data().0@,
            pd.sp_consumed(),
            offset as int,
            !reverse,
            window_end(self.lines(), if next_clump.is_some() { Some(next_clump.unwrap().lines()) } else { None }, pd.sp_data().0@, offset as int, !reverse),
            r,
        ),
@fn trait ApplyClumpFuzzy::already_applied_into
@ret r
    requires
        text_ok(self.lines()),
        within(self.lines(), reductions),
        -(isize::MAX / 2) <= offset <= isize::MAX / 2,
        fits(self.lines(), old(pd).sp_data().0@, offset as int, reductions, !reverse),
        0 <= old(pd).sp_consumed() <= old(pd).sp_data().0@.len(),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> ({
            let to = place(self.lines(), offset as int, reductions, !reverse) + trimmed(self.lines().src(!reverse), reductions).len();
            let upto = if to < old(pd).sp_consumed() { old(pd).sp_consumed() } else { to };
            &&& final(pd).sp_data() == old(pd).sp_data()
            &&& final(pd).sp_consumed() == upto
            &&& did(
                self.lines(),
                old(pd).sp_data().0@,
                reverse,
                old(pd).sp_consumed(),
                final(pd).sp_consumed(),
                (*old(into)).written(),
                (*final(into)).written(),
                skip_at(self.lines(), offset as int, reductions, reverse, false),
            )
            &&& reductions.is_none() ==> did(
                self.lines(),
                old(pd).sp_data().0@,
                reverse,
                old(pd).sp_consumed(),
                final(pd).sp_consumed(),
                (*old(into)).written(),
                (*final(into)).written(),
                skip_at(self.lines(), offset as int, reductions, reverse, true),
            )
        }),
@ghost end
    proof { reveal(did); }
@ghost start
    proof {
        ax_len_strings(old(pd).sp_data().0);
        assert(old(pd).sp_data().0@.subrange(old(pd).sp_consumed(), old(pd).sp_consumed()) =~= VSeq::empty());
    }
@fn trait ApplyClumpFuzzy::write_failure_data_into
@ret r
    requires
        text_ok(self.lines()),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + conflict(self.lines(), reverse),
@ghost start
    proof {
        assert(trimmed(self.lines().src(reverse), None) =~= self.lines().src(reverse));
        assert(trimmed(self.lines().src(!reverse), None) =~= self.lines().src(!reverse));
    }
@item trait ApplyClumpsFuzzy
spec fn sp_clumps(&self) -> VSeq<C>;
@fn trait ApplyClumpsFuzzy::clumps
@ret r
    ensures
        yields(r, self.sp_clumps()),
@fn trait ApplyClumpsFuzzy::apply_into
@ret r
    requires
        self.sp_clumps().len() < i32::MAX,
        all_text_ok(texts(self.sp_clumps())),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> exists|out: VSeq<u8>, log: VSeq<Ev>| {
            &&& (*final(into)).written() == (*old(into)).written() + out
            &&& #[trigger] outcome(texts(self.sp_clumps()), patchable.0@, reverse, out, r.unwrap(), log)
            &&& text_exact_gives(texts(self.sp_clumps()), patchable.0@, reverse, out, r.unwrap())
        },
        r.is_ok() ==> pursued(texts(self.sp_clumps()), patchable.0@, reverse, (*old(into)).written(), (*final(into)).written(), r.unwrap()), //@ C23
@loop 1
    invariant
        pursuit(vx_l, vx_x, reverse, vx_path, pd.sp_consumed(), offset as int, (*old(into)).written(), (*into).written(), stats), //@ C23
        vx_path.len() == vx_n,
        (*into).sink() == (*old(into)).sink(),
        self.sp_clumps().len() < i32::MAX,
        vx_l == texts(self.sp_clumps()),
        vx_l.len() == self.sp_clumps().len(),
        vx_x == patchable.0@,
        all_text_ok(vx_l),
        good(iter),
        0 <= vx_n <= self.sp_clumps().len(),
        0 <= clump_num <= vx_n + 1,
        rem(iter) == self.sp_clumps().skip(vx_n).as_ref(),
        pd.sp_data() == *patchable,
        patchable.0@.len() <= isize::MAX / 24,
        -(isize::MAX / 4) <= offset <= isize::MAX / 4,
        vx_log.len() == vx_n,
        0 <= pd.sp_consumed() <= patchable.0@.len(),
        run(vx_l, vx_x, reverse, vx_log, pd.sp_consumed(), (*old(into)).written(), (*into).written(), stats),
        exact_log(vx_l, vx_x, reverse, vx_log, vx_n, offset as int),
    ensures
        vx_n == self.sp_clumps().len(),
    decreases fuel(iter),
@ghost start
    hide(fits);
    hide(within);
    hide(nearest);
    hide(occurs);
    hide(trimmed);
    hide(crate::patch::exact);
    hide(found);
    hide(conflict);
    hide(texts);
    hide(text_ok);
    hide(all_text_ok);
    hide(exact_log);
    hide(there);
@ghost before loop 1
    let ghost vx_l = texts(self.sp_clumps());
    let ghost vx_x = patchable.0@;
    let ghost mut vx_n = 0int;
    let ghost mut vx_log = VSeq::<Ev>::empty();
    let ghost mut vx_path = VSeq::<Ev>::empty();
    proof {
        assert(self.sp_clumps().skip(0) =~= self.sp_clumps());
        ax_len_strings(patchable.0);
        lemma_run_start(vx_l, vx_x, reverse, (*into).written(), stats);
        lemma_pursuit_start(vx_l, vx_x, reverse, (*into).written(), stats); //@ C23
        assert(vx_log =~= all_clean(vx_l, reverse, 0));
        assert(exact_log(vx_l, vx_x, reverse, vx_log, 0, 0)) by { reveal(exact_log); }
        assert(vx_l.len() == self.sp_clumps().len()) by { reveal(texts); }
    }
@ghost loop 1 start
    broadcast use {lemma_reported_any, lemma_reported_unused_any, lemma_nearest_any, lemma_reported_unused_same};
    let ghost vx_u = pd.sp_consumed();
    let ghost vx_w = (*into).written();
    let ghost vx_s = stats;
    let ghost vx_o = offset as int;
    let ghost vx_m = next_of(vx_l, vx_n);
    let ghost vx_c = clump.lines();
    proof {
        assert(self.sp_clumps().skip(vx_n).as_ref()[0] == clump);
        assert(*clump == self.sp_clumps()[vx_n]);
        assert(rem(iter) =~= self.sp_clumps().skip(vx_n + 1).as_ref());
        lemma_texts_at(self.sp_clumps(), vx_n);
        lemma_text_ok(vx_c);
        if vx_n + 1 < vx_l.len() {
            assert(self.sp_clumps().skip(vx_n + 1).as_ref()[0] == &self.sp_clumps()[vx_n + 1]);
            lemma_texts_at(self.sp_clumps(), vx_n + 1);
        }
        lemma_run_used(vx_l, vx_x, reverse, vx_log, vx_u, (*old(into)).written(), vx_w, stats);
        lemma_did_fail(vx_c, vx_x, reverse, vx_u, vx_w, offset as int);
    }
@ghost loop 1 end
    proof {
        assert(stepped(vx_c, vx_m, vx_x, reverse, vx_u, pd.sp_consumed(), vx_w, (*into).written(), vx_s, stats)) by {
            broadcast use {lemma_stepped, lemma_hopeless};
        }
        assert(sought_step(vx_c, vx_m, vx_x, reverse, vx_u, pd.sp_consumed(), vx_o, offset as int, vx_w, (*into).written(), vx_s, stats)) by { //@ C23
            broadcast use {lemma_sought_put_here, lemma_sought_put_near, lemma_sought_skip_here, lemma_sought_skip_near, lemma_sought_fail, lemma_hopeless};
        }
        let f = lemma_pursuit_step(vx_l, vx_x, reverse, vx_path, vx_u, pd.sp_consumed(), vx_o, offset as int, (*old(into)).written(), vx_w, (*into).written(), vx_s, stats); //@ C23
        vx_path = vx_path.push(f);
        let e = the_step(vx_c, vx_m, vx_x, reverse, vx_u, pd.sp_consumed(), vx_w, (*into).written(), vx_s, stats);
        lemma_run_step(vx_l, vx_x, reverse, vx_log, (*old(into)).written(), vx_w, vx_s, pd.sp_consumed(), (*into).written(), stats, e);
        lemma_exact_step(vx_l, vx_x, reverse, vx_log, vx_n, vx_o, offset as int, vx_u, pd.sp_consumed(), vx_w, (*into).written(), e);
        vx_log = vx_log.push(e);
        vx_n = vx_n + 1;
        lemma_run_used(vx_l, vx_x, reverse, vx_log, pd.sp_consumed(), (*old(into)).written(), (*into).written(), stats);
    }
@ghost after loop 1
    let ghost vx_v = (*into).written();
    let ghost vx_d = pd.sp_consumed();
    let ghost vx_p = offset as int;
@ghost end
    proof {
        if vx_r.is_ok() {
            lemma_pursuit_end(vx_l, vx_x, reverse, vx_path, vx_d, vx_p, (*old(into)).written(), vx_v, (*into).written(), vx_r.unwrap()); //@ C23
            lemma_run_end(vx_l, vx_x, reverse, vx_log, vx_d, (*old(into)).written(), vx_v, (*into).written(), vx_r.unwrap());
            lemma_text_exact_out(vx_l, vx_x, reverse, patched(vx_l, vx_x, reverse, vx_log), vx_r.unwrap(), vx_log, offset as int);
        }
    }
@fn trait ApplyClumpsFuzzy::is_already_applied
@ret r
    requires
        self.sp_clumps().len() < i32::MAX,
        all_text_ok(texts(self.sp_clumps())),
    ensures
        r ==> forall|k: int| 0 <= k < self.sp_clumps().len() ==> there(#[trigger] texts(self.sp_clumps())[k], patchable.0@, reverse),
        (exists|y: VSeq<String>| #[trigger] exact(texts(self.sp_clumps()), y, patchable.0@, reverse)) ==> r,
        verdict(texts(self.sp_clumps()), patchable.0@, reverse, r), //@ C23
@loop 1
    invariant
        traced(texts(self.sp_clumps()), patchable.0@, reverse, vx_n, offset as int), //@ C23
        self.sp_clumps().len() < i32::MAX,
        all_text_ok(texts(self.sp_clumps())),
        good(iter),
        0 <= vx_n <= self.sp_clumps().len(),
        0 <= clump_num <= vx_n + 1,
        rem(iter) =~= self.sp_clumps().skip(vx_n).as_ref(),
        pd.sp_data() == *patchable,
        pd.sp_consumed() == 0,
        patchable.0@.len() <= isize::MAX / 24,
        -(isize::MAX / 4) <= offset <= isize::MAX / 4,
        forall|k: int| 0 <= k < vx_n ==> there(#[trigger] texts(self.sp_clumps())[k], patchable.0@, reverse),
        (exists|y: VSeq<String>| #[trigger] exact(texts(self.sp_clumps()), y, patchable.0@, reverse)) ==> offset == 0,
    ensures
        vx_n == self.sp_clumps().len(),
    decreases fuel(iter),
@ghost start
    hide(fits);
    hide(within);
    hide(nearest);
    hide(occurs);
    hide(trimmed);
    hide(crate::patch::exact);
    hide(found);
    hide(there);
@ghost before loop 1
    let ghost mut vx_n = 0int;
    proof {
        assert(self.sp_clumps().skip(0) =~= self.sp_clumps());
        ax_len_strings(patchable.0);
        lemma_traced_start(texts(self.sp_clumps()), patchable.0@, reverse); //@ C23
    }
@ghost loop 1 start
    broadcast use {lemma_reported_any, lemma_nearest_any, lemma_reported_there, lemma_nearest_there, lemma_traced_here, lemma_traced_near, lemma_unseen};
    let ghost vx_l = texts(self.sp_clumps());
    let ghost vx_x = patchable.0@;
    proof {
        assert(self.sp_clumps().skip(vx_n).as_ref()[0] == clump);
        assert(*clump == self.sp_clumps()[vx_n]);
        assert(vx_l[vx_n] == clump.lines());
        if vx_n + 1 < vx_l.len() {
            assert(text_ok(vx_l[vx_n + 1]));
            assert(self.sp_clumps().skip(vx_n + 1).as_ref()[0] == &self.sp_clumps()[vx_n + 1]);
        }
        lemma_exact_there_text(vx_l, vx_x, reverse, vx_n, offset as int);
    }
@ghost loop 1 end
    proof {
        vx_n = vx_n + 1;
    }
@bottom
/// "<<<<<<<\n", "=======\n", ">>>>>>>\n"
pub open spec fn marker(c: u8) -> VSeq<u8> {
    seq![c, c, c, c, c, c, c, 10u8]
}

/// the block a failed clump leaves: all its source lines and all its target lines
pub open spec fn conflict(c: Clump<String>, reverse: bool) -> VSeq<u8> {
    marker(60u8) + cat(c.src(reverse)) + marker(61u8) + cat(c.src(!reverse)) + marker(62u8)
}
pub proof fn lemma_exact_there_text(l: VSeq<Clump<String>>, x: VSeq<String>, reverse: bool, n: int, offset: int)
    requires
        0 <= n < l.len(),
        (exists|y: VSeq<String>| #[trigger] exact(l, y, x, reverse)) ==> offset == 0,
    ensures
        (exists|y: VSeq<String>| #[trigger] exact(l, y, x, reverse)) ==> !reported(l[n], x, offset, !reverse, None),
{
    if exists|y: VSeq<String>| #[trigger] exact(l, y, x, reverse) {
        let y = choose|y: VSeq<String>| #[trigger] exact(l, y, x, reverse);
        assert(exact_at(l, y, x, reverse, n));
        reveal(exact_at);
        reveal(reported);
        assert(trimmed(l[n].src(!reverse), None) =~= l[n].src(!reverse));
    }
}

/// what `#[derive(Default)]` (pinned) generates
impl Default for Statistics {
    fn default() -> (r: Self)
        ensures
            r == (Statistics { clean: 0, fuzzy: 0, already_applied: 0, already_applied_fuzzy: 0, failed: 0 }),
    {
        Statistics { clean: 0, fuzzy: 0, already_applied: 0, already_applied_fuzzy: 0, failed: 0 }
    }
}
