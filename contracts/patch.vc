@module patch
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
use crate::common_subsequence::*;
use crate::sequence::occurs;
use crate::changes::*;
@top
/// ---------- what a patch clump says ----------
/// both sides of a clump: where they start, what they hold; and the context lengths
pub ghost struct Clump<T> {
    pub s0: int,
    pub v0: VSeq<T>,
    pub s1: int,
    pub v1: VSeq<T>,
    pub c0: int,
    pub c1: int,
}

impl<T> Clump<T> {
    /// the side to be found (`!reverse`: the side to be put)
    pub open spec fn src(self, reverse: bool) -> VSeq<T> {
        if reverse { self.v1 } else { self.v0 }
    }

    pub open spec fn start(self, reverse: bool) -> int {
        if reverse { self.s1 } else { self.s0 }
    }

    pub open spec fn end(self, reverse: bool) -> int {
        self.start(reverse) + self.src(reverse).len()
    }
}

/// the clump records exactly the stretch of both inputs that the entries cover (C05)
pub open spec fn recorded<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>, c: Clump<T>) -> bool {
    &&& c.s0 == start_of(cs, false)
    &&& c.s1 == start_of(cs, true)
    &&& c.v0 == b.subrange(start_of(cs, false), end_of(cs, false))
    &&& c.v1 == a.subrange(start_of(cs, true), end_of(cs, true))
    &&& c.c0 == nc_len(cs[0])
    &&& c.c1 == nc_len(cs.last())
    &&& clump_wf(c)
}

/// the context lies on both sides, does not overlap, and is the same
pub open spec fn clump_wf<T>(c: Clump<T>) -> bool {
    &&& 0 <= c.s0
    &&& 0 <= c.s1
    &&& 0 <= c.c0 <= 255
    &&& 0 <= c.c1 <= 255
    &&& c.c0 + c.c1 <= c.v0.len()
    &&& c.c0 + c.c1 <= c.v1.len()
    &&& c.v0.take(c.c0) == c.v1.take(c.c0)
    &&& c.v0.skip(c.v0.len() - c.c1) == c.v1.skip(c.v1.len() - c.c1)
}

/// entries of a clump with a start: valid extents
pub proof fn lemma_clump_ends<T>(b: VSeq<T>, a: VSeq<T>, n: int, cs: VSeq<Change>)
    requires
        clump_ok(b, a, n, cs),
        n <= 255,
    ensures
        cs.len() > 0,
        cs[0].sp_ok(),
        cs.last().sp_ok(),
        0 <= nc_len(cs[0]) <= 255,
        0 <= nc_len(cs.last()) <= 255,
        0 <= start_of(cs, false) <= end_of(cs, false) <= b.len(),
        0 <= start_of(cs, true) <= end_of(cs, true) <= a.len(),
        nc_len(cs[0]) + nc_len(cs.last()) <= end_of(cs, false) - start_of(cs, false),
        nc_len(cs[0]) + nc_len(cs.last()) <= end_of(cs, true) - start_of(cs, true),
{
    reveal(stretch_ok);
    assert(piece_ok(b, a, cs[0]));
    assert(piece_ok(b, a, cs.last()));
    lemma_extent(b, a, cs, start_of(cs, false), start_of(cs, true), cs.len() as int);
    if cs.len() == 1 {
        if is_nc(cs[0]) {
            assert(nonnc(cs) =~= nonnc(cs.drop_last()));
            assert(cs.drop_last() =~= VSeq::empty());
        }
    } else {
        lemma_extent(b, a, cs, start_of(cs, false), start_of(cs, true), cs.len() - 1);
    }
}

pub proof fn lemma_extent<T>(b: VSeq<T>, a: VSeq<T>, cs: VSeq<Change>, p0: int, p1: int, n: int)
    requires
        1 <= n <= cs.len(),
        forall|k: int| 0 <= k < cs.len() ==> piece_ok(b, a, #[trigger] cs[k]),
        tiled(cs, p0, p1),
    ensures
        cs[0].sp_end(false) <= cs[n - 1].sp_end(false) <= b.len(),
        cs[0].sp_end(true) <= cs[n - 1].sp_end(true) <= a.len(),
        0 <= cs[0].sp_start(false),
        0 <= cs[0].sp_start(true),
    decreases n,
{
    assert(piece_ok(b, a, cs[0]));
    assert(piece_ok(b, a, cs[n - 1]));
    if n > 1 {
        lemma_extent(b, a, cs, p0, p1, n - 1);
        assert(cs[n - 1].sp_start(false) == pos(cs, n - 1, p0, false));
    }
}

/// recording both stretches and the context lengths gives a well-formed clump
pub proof fn lemma_recorded<T>(b: VSeq<T>, a: VSeq<T>, n: int, cs: VSeq<Change>, c: Clump<T>)
    requires
        clump_ok(b, a, n, cs),
        n <= 255,
        c.s0 == start_of(cs, false),
        c.s1 == start_of(cs, true),
        c.v0 == b.subrange(start_of(cs, false), end_of(cs, false)),
        c.v1 == a.subrange(start_of(cs, true), end_of(cs, true)),
        c.c0 == nc_len(cs[0]),
        c.c1 == nc_len(cs.last()),
    ensures
        recorded(b, a, cs, c),
{
    lemma_clump_ends(b, a, n, cs);
    assert(piece_ok(b, a, cs[0]) && piece_ok(b, a, cs.last())) by {
        reveal(stretch_ok);
    }
    if let Change::NoChange(x) = cs[0] {
        lemma_same_part(b, a, x, c.s0, c.s1, c.c0);
    }
    if let Change::NoChange(x) = cs.last() {
        lemma_same_part(b, a, x, end_of(cs, false) - c.c1, end_of(cs, true) - c.c1, c.c1);
    }
    let (f0, f1) = (end_of(cs, false), end_of(cs, true));
    assert(c.v0.take(c.c0) =~= b.subrange(c.s0, c.s0 + c.c0));
    assert(c.v1.take(c.c0) =~= a.subrange(c.s1, c.s1 + c.c0));
    assert(c.v0.skip(c.v0.len() - c.c1) =~= b.subrange(f0 - c.c1, f0));
    assert(c.v1.skip(c.v1.len() - c.c1) =~= a.subrange(f1 - c.c1, f1));
    assert(b.subrange(c.s0, c.s0) =~= a.subrange(c.s1, c.s1));
    assert(b.subrange(f0, f0) =~= a.subrange(f1, f1));
}

pub proof fn lemma_same_part<T>(b: VSeq<T>, a: VSeq<T>, x: CommonSubsequence, p0: int, p1: int, n: int)
    requires
        block(b, a, x),
        x.0 == p0,
        x.1 == p1,
        x.2 == n,
    ensures
        b.subrange(p0, p0 + n) == a.subrange(p1, p1 + n),
{
    let (u, v) = (b.subrange(p0, p0 + n), a.subrange(p1, p1 + n));
    assert forall|k: int| 0 <= k < n implies #[trigger] u[k] == v[k] by {
        assert(b[x.0 + k] == a[x.1 + k]);
    }
    assert(u =~= v);
}

/// the clumps of a patch record the stretches of a list of clumps
pub open spec fn all_recorded<T>(b: VSeq<T>, a: VSeq<T>, ls: VSeq<VSeq<Change>>, l: VSeq<Clump<T>>) -> bool {
    &&& l.len() == ls.len()
    &&& forall|k: int| 0 <= k < l.len() ==> recorded(b, a, ls[k], #[trigger] l[k])
}

/// a patch that records what two inputs and a context size give (C05)
pub open spec fn patch_of<T>(b: VSeq<T>, a: VSeq<T>, n: int, l: VSeq<Clump<T>>) -> bool {
    exists|cs: VSeq<Change>, ls: VSeq<VSeq<Change>>|
        script_ok(b, a, cs) && #[trigger] clumps_ok(b, a, n, cs, ls) && all_recorded(b, a, ls, l)
}

/// ---------- a patch that leads exactly from x to y ----------
/// where the unchanged stretch before clump k begins
pub open spec fn gap_at<T>(l: VSeq<Clump<T>>, k: int, reverse: bool) -> int {
    if k <= 0 { 0 } else { l[k - 1].end(reverse) }
}

#[verifier::opaque]
pub open spec fn exact_at<T>(l: VSeq<Clump<T>>, x: VSeq<T>, y: VSeq<T>, reverse: bool, k: int) -> bool {
    &&& occurs(x, l[k].src(reverse), l[k].start(reverse))
    &&& occurs(y, l[k].src(!reverse), l[k].start(!reverse))
    &&& gap(x, y, gap_at(l, k, reverse), gap_at(l, k, !reverse), l[k].start(reverse), l[k].start(!reverse))
    &&& clump_wf(l[k])
}

#[verifier::opaque]
pub open spec fn exact_end<T>(l: VSeq<Clump<T>>, x: VSeq<T>, y: VSeq<T>, reverse: bool) -> bool {
    gap(x, y, gap_at(l, l.len() as int, reverse), gap_at(l, l.len() as int, !reverse), x.len() as int, y.len() as int)
}

pub open spec fn exact<T>(l: VSeq<Clump<T>>, x: VSeq<T>, y: VSeq<T>, reverse: bool) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> #[trigger] exact_at(l, x, y, reverse, k)
    &&& exact_end(l, x, y, reverse)
}

pub proof fn lemma_gap_flip<T>(b: VSeq<T>, a: VSeq<T>, p0: int, p1: int, q0: int, q1: int)
    requires
        gap(b, a, p0, p1, q0, q1),
    ensures
        gap(a, b, p1, p0, q1, q0),
{
}

pub proof fn lemma_exact_flip<T>(l: VSeq<Clump<T>>, x: VSeq<T>, y: VSeq<T>, reverse: bool)
    requires
        exact(l, x, y, reverse),
    ensures
        exact(l, y, x, !reverse),
{
    let other = !reverse;
    assert(!other == reverse);
    reveal(exact_end);
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] exact_at(l, y, x, other, k) by {
        assert(exact_at(l, x, y, reverse, k));
        reveal(exact_at);
    }
}

pub proof fn lemma_exact_at<T>(b: VSeq<T>, a: VSeq<T>, n: int, ls: VSeq<VSeq<Change>>, l: VSeq<Clump<T>>, k: int)
    requires
        clumps_to(b, a, n, ls, b.len() as int, a.len() as int),
        all_recorded(b, a, ls, l),
        n <= 255,
        0 <= k < l.len(),
    ensures
        exact_at(l, b, a, false, k),
{
    reveal(exact_at);
    assert(recorded(b, a, ls[k], l[k]));
    lemma_clump_ends(b, a, n, ls[k]);
    if k > 0 {
        assert(recorded(b, a, ls[k - 1], l[k - 1]));
        lemma_clump_ends(b, a, n, ls[k - 1]);
    }
}

pub proof fn lemma_exact<T>(b: VSeq<T>, a: VSeq<T>, n: int, l: VSeq<Clump<T>>)
    requires
        patch_of(b, a, n, l),
        n <= 255,
    ensures
        exact(l, b, a, false),
        exact(l, a, b, true),
{
    let (cs, ls) = choose|cs: VSeq<Change>, ls: VSeq<VSeq<Change>>|
        script_ok(b, a, cs) && #[trigger] clumps_ok(b, a, n, cs, ls) && all_recorded(b, a, ls, l);
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] exact_at(l, b, a, false, k) by {
        lemma_exact_at(b, a, n, ls, l, k);
    }
    if l.len() > 0 {
        assert(recorded(b, a, ls.last(), l.last()));
        lemma_clump_ends(b, a, n, ls.last());
    }
    reveal(exact_end);
    lemma_exact_flip(l, b, a, false);
}

/// ---------- replacing exact matches ----------
/// the clumps `placed`, in order, at their own positions, one behind the other
pub open spec fn placed_ok<T>(l: VSeq<Clump<T>>, x: VSeq<T>, reverse: bool, placed: VSeq<int>) -> bool {
    forall|k: int| 0 <= k < placed.len() ==> {
        &&& 0 <= #[trigger] placed[k] < l.len()
        &&& occurs(x, l[placed[k]].src(reverse), l[placed[k]].start(reverse))
        &&& k > 0 ==> placed[k - 1] < placed[k]
        &&& l[placed[k]].start(reverse) >= done(l, reverse, placed.take(k))
    }
}

/// end of the last stretch replaced
pub open spec fn done<T>(l: VSeq<Clump<T>>, reverse: bool, placed: VSeq<int>) -> int {
    if placed.len() == 0 { 0 } else { l[placed.last()].end(reverse) }
}

/// x up to the end of the last stretch replaced, with the stretches replaced
pub open spec fn spliced<T>(l: VSeq<Clump<T>>, x: VSeq<T>, reverse: bool, placed: VSeq<int>) -> VSeq<T>
    decreases placed.len(),
{
    if placed.len() == 0 {
        VSeq::empty()
    } else {
        let c = l[placed.last()];
        spliced(l, x, reverse, placed.drop_last()) + x.subrange(done(l, reverse, placed.drop_last()), c.start(reverse)) + c.src(!reverse)
    }
}

/// x with the stretches of the clumps `placed` replaced and nothing else touched (C13)
pub open spec fn replaced<T>(l: VSeq<Clump<T>>, x: VSeq<T>, reverse: bool, placed: VSeq<int>) -> VSeq<T> {
    spliced(l, x, reverse, placed) + x.subrange(done(l, reverse, placed), x.len() as int)
}

/// one more clump placed
pub proof fn lemma_place_ok<T>(l: VSeq<Clump<T>>, x: VSeq<T>, reverse: bool, placed: VSeq<int>, k: int)
    requires
        placed_ok(l, x, reverse, placed),
        0 <= k < l.len(),
        placed.len() > 0 ==> placed.last() < k,
        occurs(x, l[k].src(reverse), l[k].start(reverse)),
        done(l, reverse, placed) <= l[k].start(reverse),
    ensures
        placed_ok(l, x, reverse, placed.push(k)),
{
    hide(occurs);
    let p = placed.push(k);
    assert forall|i: int| 0 <= i < p.len() implies {
        &&& 0 <= #[trigger] p[i] < l.len()
        &&& occurs(x, l[p[i]].src(reverse), l[p[i]].start(reverse))
        &&& i > 0 ==> p[i - 1] < p[i]
        &&& l[p[i]].start(reverse) >= done(l, reverse, p.take(i))
    } by {
        if i < placed.len() {
            assert(p[i] == placed[i]);
            assert(p.take(i) =~= placed.take(i));
            if i > 0 { assert(p[i - 1] == placed[i - 1]); }
        } else {
            assert(p.take(i) =~= placed);
        }
    }
}

pub proof fn lemma_place<T>(l: VSeq<Clump<T>>, x: VSeq<T>, reverse: bool, placed: VSeq<int>, k: int, upto: int)
    requires
        placed_ok(l, x, reverse, placed),
        0 <= k < l.len(),
        placed.len() > 0 ==> placed.last() < k,
        occurs(x, l[k].src(reverse), l[k].start(reverse)),
        0 <= done(l, reverse, placed) <= upto <= l[k].start(reverse),
    ensures
        placed_ok(l, x, reverse, placed.push(k)),
        done(l, reverse, placed.push(k)) == l[k].end(reverse),
        spliced(l, x, reverse, placed.push(k)) == spliced(l, x, reverse, placed) + x.subrange(done(l, reverse, placed), upto) + x.subrange(
            upto,
            l[k].start(reverse),
        ) + l[k].src(!reverse),
{
    lemma_place_ok(l, x, reverse, placed, k);
    lemma_spliced_push(l, x, reverse, placed, k, upto);
}

pub proof fn lemma_spliced_push<T>(l: VSeq<Clump<T>>, x: VSeq<T>, reverse: bool, placed: VSeq<int>, k: int, upto: int)
    requires
        0 <= done(l, reverse, placed) <= upto <= l[k].start(reverse) <= x.len(),
    ensures
        spliced(l, x, reverse, placed.push(k)) == spliced(l, x, reverse, placed) + x.subrange(done(l, reverse, placed), upto) + x.subrange(
            upto,
            l[k].start(reverse),
        ) + l[k].src(!reverse),
{
    let d = done(l, reverse, placed);
    let st = l[k].start(reverse);
    let p = placed.push(k);
    assert(p.drop_last() =~= placed);
    assert(p.last() == k);
    let s = spliced(l, x, reverse, placed);
    assert(spliced(l, x, reverse, p) == s + x.subrange(d, st) + l[k].src(!reverse));
    let q = x.subrange(d, upto);
    let r = x.subrange(upto, st);
    assert(x.subrange(d, st) =~= q + r);
    assert(s + (q + r) =~= s + q + r);
}

/// 0, 1, .., n - 1
pub open spec fn first(n: int) -> VSeq<int> {
    VSeq::new(n as nat, |i: int| i)
}

/// with every clump so far placed, the output is the other side up to the end of the last clump
pub proof fn lemma_exact_prefix<T>(l: VSeq<Clump<T>>, x: VSeq<T>, y: VSeq<T>, reverse: bool, n: int)
    requires
        exact(l, x, y, reverse),
        0 <= n <= l.len(),
    ensures
        done(l, reverse, first(n)) == gap_at(l, n, reverse),
        0 <= gap_at(l, n, reverse) <= x.len(),
        0 <= gap_at(l, n, !reverse) <= y.len(),
        spliced(l, x, reverse, first(n)) == y.take(gap_at(l, n, !reverse)),
    decreases n,
{
    if n > 0 {
        lemma_exact_prefix(l, x, y, reverse, n - 1);
        assert(first(n).drop_last() =~= first(n - 1));
        let c = l[n - 1];
        assert(exact_at(l, x, y, reverse, n - 1));
        reveal(exact_at);
        let p0 = gap_at(l, n - 1, reverse);
        let p1 = gap_at(l, n - 1, !reverse);
        lemma_gap_same(x, y, p0, p1, c.start(reverse), c.start(!reverse));
        assert(y.take(p1) + y.subrange(p1, c.start(!reverse)) + y.subrange(c.start(!reverse), c.end(!reverse)) =~= y.take(c.end(!reverse)));
    } else {
        assert(first(n) =~= VSeq::empty());
        assert(y.take(0) =~= VSeq::empty());
    }
}

pub proof fn lemma_gap_same<T>(x: VSeq<T>, y: VSeq<T>, p0: int, p1: int, q0: int, q1: int)
    requires
        gap(x, y, p0, p1, q0, q1),
    ensures
        x.subrange(p0, q0) == y.subrange(p1, q1),
{
    let (u, v) = (x.subrange(p0, q0), y.subrange(p1, q1));
    assert forall|k: int| 0 <= k < u.len() implies #[trigger] u[k] == v[k] by {
        assert(x[p0 + k] == y[p1 + k]);
    }
    assert(u =~= v);
}

pub proof fn lemma_exact_all<T>(l: VSeq<Clump<T>>, x: VSeq<T>, y: VSeq<T>, reverse: bool)
    requires
        exact(l, x, y, reverse),
    ensures
        replaced(l, x, reverse, first(l.len() as int)) == y,
{
    let n = l.len() as int;
    lemma_exact_prefix(l, x, y, reverse, n);
    let p0 = gap_at(l, n, reverse);
    let p1 = gap_at(l, n, !reverse);
    reveal(exact_end);
    lemma_gap_same(x, y, p0, p1, x.len() as int, y.len() as int);
    assert(y.take(p1) + y.subrange(p1, y.len() as int) =~= y);
}
