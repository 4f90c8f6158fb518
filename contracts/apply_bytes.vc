@module apply_bytes pw_diff_lib/src/apply_bytes.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::sequence::{occurs, ConsumableSeq, ConsumableSeqIfce, Seq, WriteDataInto};
use crate::patch::*;
use std::io;
broadcast use {vstd::std_specs::iter::group_iter_axioms, crate::prelude::group_cat};
@top
/// the clumps of a patch, as values
pub open spec fn models<C: ApplyClumpClean>(l: VSeq<C>) -> VSeq<Clump<u8>> {
    VSeq::new(l.len(), |k: int| l[k].model())
}

/// where the clumps up to n are: the last one placed ends before the text used up
pub open spec fn placed_to(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, placed: VSeq<int>, n: int, upto: int) -> bool {
    &&& placed_ok(l, x, reverse, placed)
    &&& placed.len() > 0 ==> placed.last() < n
    &&& 0 <= done(l, reverse, placed) <= upto <= x.len()
}

/// what is written while x is patched up to position `upto`
pub open spec fn partial(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, placed: VSeq<int>, upto: int) -> VSeq<u8> {
    spliced(l, x, reverse, placed) + x.subrange(done(l, reverse, placed), upto)
}

pub proof fn lemma_partial_place(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, placed: VSeq<int>, n: int, upto: int)
    requires
        placed_to(l, x, reverse, placed, n, upto),
        0 <= n < l.len(),
        occurs(x, l[n].src(reverse), l[n].start(reverse)),
        upto <= l[n].start(reverse),
    ensures
        placed_to(l, x, reverse, placed.push(n), n + 1, l[n].end(reverse)),
        partial(l, x, reverse, placed.push(n), l[n].end(reverse)) == partial(l, x, reverse, placed, upto) + x.subrange(
            upto,
            l[n].start(reverse),
        ) + l[n].src(!reverse),
{
    lemma_place(l, x, reverse, placed, n, upto);
    let e = l[n].end(reverse);
    assert(x.subrange(e, e) =~= VSeq::empty());
}

pub proof fn lemma_partial_keep(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, placed: VSeq<int>, n: int, upto: int, upto2: int)
    requires
        placed_to(l, x, reverse, placed, n, upto),
        upto <= upto2 <= x.len(),
    ensures
        placed_to(l, x, reverse, placed, n + 1, upto2),
        partial(l, x, reverse, placed, upto2) == partial(l, x, reverse, placed, upto) + x.subrange(upto, upto2),
{
    let d = done(l, reverse, placed);
    assert(x.subrange(d, upto2) =~= x.subrange(d, upto) + x.subrange(upto, upto2));
}

/// the bytes written for x are x with some exactly matching stretches replaced
pub open spec fn some_replaced(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, out: VSeq<u8>) -> bool {
    exists|placed: VSeq<int>| placed_ok(l, x, reverse, placed) && out == #[trigger] replaced(l, x, reverse, placed)
}

/// what becomes of the first n clumps: which are placed, and how far x is used up (C26)
pub open spec fn taken(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, n: int) -> (VSeq<int>, int)
    decreases n,
{
    if n <= 0 {
        (VSeq::empty(), 0)
    } else {
        let c = l[n - 1];
        let (p, u) = taken(l, x, reverse, n - 1);
        if u <= c.start(reverse) && occurs(x, c.src(reverse), c.start(reverse)) {
            (p.push(n - 1), c.end(reverse))
        } else if occurs(x, c.src(!reverse), c.start(!reverse)) && u < c.end(!reverse) {
            (p, c.end(!reverse))
        } else {
            (p, u)
        }
    }
}

/// what patching x gives, whatever x is (C26)
pub open spec fn outcome(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool) -> VSeq<u8> {
    replaced(l, x, reverse, taken(l, x, reverse, l.len() as int).0)
}

/// A clump is placed exactly if its source bytes are at its position, behind all that is used up,
/// and what is used up only grows: behind a clump placed, or found already applied, to its end.
pub proof fn theorem_taken(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, n: int)
    requires
        0 <= n <= l.len(),
        forall|k: int| 0 <= k < l.len() ==> 0 <= (#[trigger] l[k]).start(reverse),
    ensures
        0 <= taken(l, x, reverse, n).1 <= x.len(),
        forall|k: int| 0 <= k < n ==> (taken(l, x, reverse, n).0.contains(k) <==> {
            &&& taken(l, x, reverse, k).1 <= (#[trigger] l[k]).start(reverse)
            &&& occurs(x, l[k].src(reverse), l[k].start(reverse))
        }),
        forall|k: int| 0 <= k < n ==> {
            &&& taken(l, x, reverse, k).1 <= #[trigger] taken(l, x, reverse, n).1
            &&& taken(l, x, reverse, n).0.contains(k) ==> l[k].end(reverse) <= taken(l, x, reverse, n).1
            &&& occurs(x, l[k].src(!reverse), l[k].start(!reverse)) && !taken(l, x, reverse, n).0.contains(k) ==> (#[trigger] l[k]).end(!reverse)
                <= taken(l, x, reverse, n).1
        },
        forall|i: int| 0 <= i < taken(l, x, reverse, n).0.len() ==> 0 <= #[trigger] taken(l, x, reverse, n).0[i] < n,
    decreases n,
{
    if n > 0 {
        theorem_taken(l, x, reverse, n - 1);
        let (p, u) = taken(l, x, reverse, n - 1);
        let q = taken(l, x, reverse, n).0;
        if q != p {
            assert(q == p.push(n - 1));
            assert forall|k: int| 0 <= k < n - 1 implies (p.contains(k) <==> q.contains(k)) by {
                if p.contains(k) {
                    let i = p.index_of(k);
                    assert(q[i] == k);
                }
                if q.contains(k) {
                    let i = q.index_of(k);
                    assert(p[i] == k);
                }
            }
            assert(q[p.len() as int] == n - 1);
        }
        assert(!p.contains(n - 1));
    }
}

/// the patch leads from x to `y` whenever it says so exactly
pub open spec fn exact_gives(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, out: VSeq<u8>) -> bool {
    forall|y: VSeq<u8>| #[trigger] exact(l, x, y, reverse) ==> out == y
}

pub open spec fn exact_so_far(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, placed: VSeq<int>, n: int, upto: int) -> bool {
    forall|y: VSeq<u8>| #[trigger] exact(l, x, y, reverse) ==> placed == first(n) && upto == gap_at(l, n, reverse)
}

pub proof fn lemma_exact_step(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, placed: VSeq<int>, n: int, upto: int)
    requires
        exact_so_far(l, x, reverse, placed, n, upto),
        0 <= n < l.len(),
    ensures
        upto <= l[n].start(reverse) && occurs(x, l[n].src(reverse), l[n].start(reverse)) ==> exact_so_far(
            l,
            x,
            reverse,
            placed.push(n),
            n + 1,
            l[n].end(reverse),
        ),
        !(upto <= l[n].start(reverse) && occurs(x, l[n].src(reverse), l[n].start(reverse))) ==> forall|y: VSeq<u8>|
            !#[trigger] exact(l, x, y, reverse),
{
    assert(first(n).push(n) =~= first(n + 1));
    assert forall|y: VSeq<u8>| #[trigger] exact(l, x, y, reverse) implies upto <= l[n].start(reverse) && occurs(
        x,
        l[n].src(reverse),
        l[n].start(reverse),
    ) by {
        assert(exact_at(l, x, y, reverse, n));
        reveal(exact_at);
    }
}

pub proof fn lemma_exact_out(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool, placed: VSeq<int>, upto: int)
    requires
        placed_to(l, x, reverse, placed, l.len() as int, upto),
        exact_so_far(l, x, reverse, placed, l.len() as int, upto),
    ensures
        partial(l, x, reverse, placed, upto) + x.subrange(upto, x.len() as int) == replaced(l, x, reverse, placed),
        exact_gives(l, x, reverse, replaced(l, x, reverse, placed)),
{
    lemma_partial_keep(l, x, reverse, placed, l.len() as int, upto, x.len() as int);
    assert forall|y: VSeq<u8>| #[trigger] exact(l, x, y, reverse) implies replaced(l, x, reverse, placed) == y by {
        lemma_exact_all(l, x, y, reverse);
    }
}

/// every clump's target bytes are where the clump says
pub open spec fn all_there(l: VSeq<Clump<u8>>, x: VSeq<u8>, reverse: bool) -> bool {
    forall|k: int| 0 <= k < l.len() ==> occurs(x, (#[trigger] l[k]).src(!reverse), l[k].start(!reverse))
}

pub proof fn lemma_exact_there(l: VSeq<Clump<u8>>, x: VSeq<u8>, y: VSeq<u8>, reverse: bool)
    requires
        exact(l, x, y, reverse),
    ensures
        all_there(l, y, reverse),
{
    assert forall|k: int| 0 <= k < l.len() implies occurs(y, (#[trigger] l[k]).src(!reverse), l[k].start(!reverse)) by {
        assert(exact_at(l, x, y, reverse, k));
        reveal(exact_at);
    }
}
@item trait ApplyClumpClean
spec fn model(&self) -> Clump<u8>;
@fn trait ApplyClumpClean::before_start
@ret r
    ensures
        r == self.model().start(reverse),
@fn trait ApplyClumpClean::will_apply
@ret r
    ensures
        r == occurs(se.0@, self.model().src(reverse), self.model().start(reverse)),
@fn trait ApplyClumpClean::is_already_applied
@ret r
    ensures
        r == occurs(se.0@, self.model().src(!reverse), self.model().start(!reverse)),
@fn trait ApplyClumpClean::apply_into
@ret r
    requires
        occurs(old(pd).sp_data().0@, self.model().src(reverse), self.model().start(reverse)),
        old(pd).sp_consumed() <= self.model().start(reverse),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> {
            &&& final(pd).sp_data() == old(pd).sp_data()
            &&& final(pd).sp_consumed() == self.model().end(reverse)
            &&& (*final(into)).written() == (*old(into)).written() + old(pd).sp_data().0@.subrange(
                old(pd).sp_consumed(),
                self.model().start(reverse),
            ) + self.model().src(!reverse)
        },
@fn trait ApplyClumpClean::already_applied_into
@ret r
    requires
        occurs(old(pd).sp_data().0@, self.model().src(!reverse), self.model().start(!reverse)),
        old(pd).sp_consumed() <= old(pd).sp_data().0@.len(),
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> {
            &&& final(pd).sp_data() == old(pd).sp_data()
            &&& old(pd).sp_consumed() <= final(pd).sp_consumed() <= old(pd).sp_data().0@.len()
            &&& (*final(into)).written() == (*old(into)).written() + old(pd).sp_data().0@.subrange(
                old(pd).sp_consumed(),
                final(pd).sp_consumed(),
            )
        },
        r.is_ok() ==> final(pd).sp_consumed() == if old(pd).sp_consumed() < self.model().end(!reverse) { self.model().end(!reverse) } else { old(pd).sp_consumed() as int }, //@ C26
@item trait ApplyClumpsClean
spec fn sp_clumps(&self) -> VSeq<C>;
@fn trait ApplyClumpsClean::clumps
@ret r
    ensures
        yields(r, self.sp_clumps()),
@fn trait ApplyClumpsClean::apply_into
@ret r
    requires
        self.sp_clumps().len() < i32::MAX,
    ensures
        (*final(into)).sink() == (*old(into)).sink(),
        r.is_ok() ==> exists|out: VSeq<u8>| {
            &&& (*final(into)).written() == (*old(into)).written() + out
            &&& #[trigger] some_replaced(models(self.sp_clumps()), patchable.0@, reverse, out)
            &&& exact_gives(models(self.sp_clumps()), patchable.0@, reverse, out)
        },
        r.is_ok() ==> (*final(into)).written() == (*old(into)).written() + outcome(models(self.sp_clumps()), patchable.0@, reverse), //@ C26
@loop 1
    invariant
        (*into).sink() == (*old(into)).sink(),
        self.sp_clumps().len() < i32::MAX,
        good(iter),
        0 <= vx_n <= self.sp_clumps().len(),
        0 <= clump_num <= vx_n + 1,
        rem(iter) =~= self.sp_clumps().skip(vx_n).as_ref(),
        pd.sp_data() == *patchable,
        placed_to(models(self.sp_clumps()), patchable.0@, reverse, vx_placed, vx_n, pd.sp_consumed()),
        exact_so_far(models(self.sp_clumps()), patchable.0@, reverse, vx_placed, vx_n, pd.sp_consumed()),
        taken(models(self.sp_clumps()), patchable.0@, reverse, vx_n) == (vx_placed, pd.sp_consumed() as int), //@ C26
        (*into).written() == (*old(into)).written() + partial(models(self.sp_clumps()), patchable.0@, reverse, vx_placed, pd.sp_consumed()),
    ensures
        vx_n == self.sp_clumps().len(),
    decreases fuel(iter),
@ghost before loop 1
    let ghost mut vx_n = 0int;
    let ghost mut vx_placed = VSeq::<int>::empty();
    proof {
        assert(self.sp_clumps().skip(0) =~= self.sp_clumps());
        assert(first(0) =~= VSeq::empty());
        assert(patchable.0@.subrange(0, 0) =~= VSeq::empty());
        assert((*into).written() + VSeq::<u8>::empty() =~= (*into).written());
    }
@ghost loop 1 start
    let ghost vx_l = models(self.sp_clumps());
    let ghost vx_x = patchable.0@;
    let ghost vx_c = pd.sp_consumed();
    proof {
        assert(self.sp_clumps().skip(vx_n).as_ref()[0] == clump);
        assert(*clump == self.sp_clumps()[vx_n]);
        assert(vx_l[vx_n] == clump.model());
        lemma_exact_step(vx_l, vx_x, reverse, vx_placed, vx_n, vx_c);
    }
@ghost after call apply_into 1
    proof {
        lemma_partial_place(vx_l, vx_x, reverse, vx_placed, vx_n, vx_c);
        vx_placed = vx_placed.push(vx_n);
    }
@ghost after call already_applied_into 1
    proof {
        lemma_partial_keep(vx_l, vx_x, reverse, vx_placed, vx_n, vx_c, pd.sp_consumed());
    }
@ghost loop 1 end
    proof {
        vx_n = vx_n + 1;
    }
@ghost after loop 1
    proof {
        lemma_exact_out(models(self.sp_clumps()), patchable.0@, reverse, vx_placed, pd.sp_consumed());
        let out = replaced(models(self.sp_clumps()), patchable.0@, reverse, vx_placed);
        assert(some_replaced(models(self.sp_clumps()), patchable.0@, reverse, out));
    }
@fn trait ApplyClumpsClean::already_applied
@ret r
    requires
        self.sp_clumps().len() < i32::MAX,
    ensures
        r == all_there(models(self.sp_clumps()), patchable.0@, reverse),
@loop 1
    invariant
        self.sp_clumps().len() < i32::MAX,
        good(iter),
        0 <= vx_n <= self.sp_clumps().len(),
        0 <= clump_num <= vx_n + 1,
        rem(iter) =~= self.sp_clumps().skip(vx_n).as_ref(),
        forall|k: int| 0 <= k < vx_n ==> occurs(patchable.0@, (#[trigger] models(self.sp_clumps())[k]).src(!reverse), models(self.sp_clumps())[k].start(!reverse)),
    ensures
        vx_n == self.sp_clumps().len(),
    decreases fuel(iter),
@ghost before loop 1
    let ghost mut vx_n = 0int;
    proof {
        assert(self.sp_clumps().skip(0) =~= self.sp_clumps());
    }
@ghost loop 1 start
    proof {
        assert(self.sp_clumps().skip(vx_n).as_ref()[0] == clump);
        assert(*clump == self.sp_clumps()[vx_n]);
        assert(models(self.sp_clumps())[vx_n] == clump.model());
    }
@ghost loop 1 end
    proof {
        vx_n = vx_n + 1;
    }
