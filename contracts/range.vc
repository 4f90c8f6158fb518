@module range pw_diff_lib/src/range.rs
@uses
use crate::prelude::*;
@item trait Len
spec fn sp_len(&self) -> int;
@fn trait Len::len
@ret r
    ensures
        r == self.sp_len(),
@fn trait Len::is_empty
@ret r
    ensures
        r == (self.sp_len() == 0),
@item impl Len for Range
open spec fn sp_len(&self) -> int {
    if self.1 > self.0 { self.1 - self.0 } else { 0 }
}
@fn Len for Range::len
@ghost end
    proof { assert(vx_r == self.sp_len()); }
@fn Range::start
@ret r
    ensures
        r == self.0,
@fn Range::end
@ret r
    ensures
        r == self.1,
@fn Range::is_valid
@ret r
    ensures
        r == (self.0 <= self.1),
@fn Range::is_valid_for_max_end
@ret r
    ensures
        r == (self.0 <= self.1 && self.1 <= max_end),
