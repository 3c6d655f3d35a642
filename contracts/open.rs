} // verus
} // mod base
pub mod code {
use vstd::prelude::*;
use crate::base::*;
verus! {
broadcast use {ax_sub_ref, ax_vec_ref, ax_add_comm, ax_mul_comm};
