@module cub_text_diff pw_cub_diff_lib/src/text_diff.rs
@uses
use crate::prelude::*;
use std::num::ParseIntError;
@top
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(ParseIntError);
@skipitem impl Display for DiffParseError -- text of an error message
@skipitem impl Error for DiffParseError -- no items
@fn trait CheckEndOfInput::check_end_of_input
@ret r
    ensures
        match r {
            Ok(x) => self.sp_there() == Some(*x),
            Err(_) => self.sp_there().is_none(),
        },
@item trait CheckEndOfInput
spec fn sp_there(&self) -> Option<T>;
@item impl CheckEndOfInput<T> for Option<T>
open spec fn sp_there(&self) -> Option<T> {
    *self
}
@fn CheckEndOfInput<T> for Option<T>::check_end_of_input
