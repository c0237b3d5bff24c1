#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_b64, vxb::axiom_sha1, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text, vxip::lemma_items_total};
@@include stubs_io.rs
@@include stubs_str.rs
@@include stubs_text.rs
@@include stubs_hyper.rs
@@include unit_header.tpl
@@include spec_list.rs
@@include stubs_list.rs
@@include unit_hlist.tpl
} // verus!
fn main() {}
