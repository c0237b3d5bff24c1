#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
broadcast use {lemma_skip_skip, lemma_skip_subrange, axiom_question_mark_from, axiom_vec_bytes, axiom_slice_bytes};
@@include stubs_io.rs
@@include unit_frame.tpl
@@include stubs_str.rs
@@include spec_message.rs
@@include unit_message.tpl
@@include unit_receiver.tpl
@@include stubs_bytes.rs
@@include unit_sender.tpl
@@include unit_codec.tpl
} // verus!
fn main() {}
