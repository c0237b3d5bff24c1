#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
@@include stubs_io.rs
@@include stubs_str.rs
@@include stubs_text.rs
@@include stubs_bytes_reader.rs
@@include stubs_bytesmut.rs
@@include stubs_hyper.rs
pub struct VxBoxedError;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub use std::str::Utf8Error;
@@include unit_http.tpl
} // verus!
fn main() {}
