@module common_subsequence pw_diff_lib/src/common_subsequence.rs
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use crate::range::*;
@pin struct CommonSubsequence
Default PartialOrd PartialEq Ord Eq Clone Copy
@item impl CommonSubsequence
/// both ends of the block are representable
pub open spec fn fits(&self) -> bool {
    &&& self.0 + self.2 <= usize::MAX
    &&& self.1 + self.2 <= usize::MAX
}
pub open spec fn bend(&self) -> int {
    self.0 + self.2
}
pub open spec fn aend(&self) -> int {
    self.1 + self.2
}
@item impl Len for CommonSubsequence
open spec fn sp_len(&self) -> int {
    self.2 as int
}
@fn Len for CommonSubsequence::len
@fn CommonSubsequence::before_range
@ret r
    requires
        self.fits(),
    ensures
        r == Range(self.0, (self.0 + self.2) as usize),
@fn CommonSubsequence::after_range
@ret r
    requires
        self.fits(),
    ensures
        r == Range(self.1, (self.1 + self.2) as usize),
@fn CommonSubsequence::before_start
@ret r
    ensures
        r == self.0,
@fn CommonSubsequence::after_start
@ret r
    ensures
        r == self.1,
@fn CommonSubsequence::before_end
@ret r
    requires
        self.fits(),
    ensures
        r == self.0 + self.2,
@fn CommonSubsequence::after_end
@ret r
    requires
        self.fits(),
    ensures
        r == self.1 + self.2,
@fn CommonSubsequence::incr_size_moving_starts
    requires
        arg <= old(self).0,
        arg <= old(self).1,
        old(self).fits(),
    ensures
        final(self).0 == old(self).0 - arg,
        final(self).1 == old(self).1 - arg,
        final(self).2 == old(self).2 + arg,
@fn CommonSubsequence::incr_size_moving_ends
    requires
        old(self).2 + increment <= usize::MAX,
    ensures
        final(self).0 == old(self).0,
        final(self).1 == old(self).1,
        final(self).2 == old(self).2 + increment,
@fn CommonSubsequence::starts_trimmed
@ret r
    requires
        self.fits(),
    ensures
        r.2 == (if self.2 <= requested_size { self.2 as int } else { requested_size as int }),
        r.0 + r.2 == self.0 + self.2,
        r.1 + r.2 == self.1 + self.2,
@fn CommonSubsequence::ends_trimmed
@ret r
    ensures
        r.2 == (if self.2 <= requested_size { self.2 as int } else { requested_size as int }),
        r.0 == self.0,
        r.1 == self.1,
@fn CommonSubsequence::split
@ret r
    requires
        self.fits(),
    ensures
        r.is_some() == (self.2 >= 2 * requested_size),
        r.is_some() ==> ({
            let (h, t) = r.unwrap();
            &&& h.2 == requested_size && t.2 == requested_size
            &&& h.0 == self.0 && h.1 == self.1
            &&& t.0 + t.2 == self.0 + self.2
            &&& t.1 + t.2 == self.1 + self.2
        }),
@bottom
/// what `#[derive(Default)]` (pinned above) generates
impl Default for CommonSubsequence {
    fn default() -> (r: Self)
        ensures
            r == CommonSubsequence(0, 0, 0),
    {
        CommonSubsequence(0, 0, 0)
    }
}

/// ---------- sorting (rayon's `par_sort` with the derived order, pinned above) ----------
/// the derived order: field by field
pub open spec fn lex_le(c: CommonSubsequence, d: CommonSubsequence) -> bool {
    c.0 < d.0 || (c.0 == d.0 && (c.1 < d.1 || (c.1 == d.1 && c.2 <= d.2)))
}

/// `s` holds the items of `raw`, each once, at the places `p` (and `q` backwards)
pub open spec fn permuted_by(raw: VSeq<CommonSubsequence>, s: VSeq<CommonSubsequence>, p: VSeq<int>, q: VSeq<int>) -> bool {
    &&& s.len() == raw.len()
    &&& p.len() == raw.len()
    &&& q.len() == raw.len()
    &&& forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] p[k] < s.len() && s[k] == raw[p[k]] && q[p[k]] == k
    &&& forall|m: int| 0 <= m < s.len() ==> 0 <= #[trigger] q[m] < s.len() && p[q[m]] == m
}

pub open spec fn sorted_of(raw: VSeq<CommonSubsequence>, s: VSeq<CommonSubsequence>) -> bool {
    &&& exists|p: VSeq<int>, q: VSeq<int>| #[trigger] permuted_by(raw, s, p, q)
    &&& forall|k: int, m: int| 0 <= k < m < s.len() ==> lex_le(#[trigger] s[k], #[trigger] s[m])
}

pub trait VxParSort {
    fn vx_par_sort(&mut self);
}

impl VxParSort for Vec<CommonSubsequence> {
    #[verifier::external_body]
    fn vx_par_sort(&mut self)
        ensures
            sorted_of((*old(self))@, (*final(self))@),
    {
        unimplemented!()
    }
}
