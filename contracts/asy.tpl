#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types, mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_b64, vxb::axiom_sha1, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text, vxip::lemma_items_total, lemma_skip_skip, lemma_skip_subrange, vxq::axiom_vec_bytes, vxq::axiom_slice_bytes};
@@include stubs_io.rs
@trust on
@@include unit_frame.tpl
@@include stubs_str.rs
@@include spec_message.rs
@@include unit_message.tpl
@@include unit_receiver.tpl
@@include stubs_bytes_reader.rs
@@include stubs_bytesmut.rs
@@include stubs_codec.rs
@@include unit_sender.tpl
@@include stubs_text.rs
@@include stubs_hyper.rs
@@include unit_header.tpl
@@include spec_list.rs
@@include stubs_list.rs
@@include unit_hlist.tpl
@@include stubs_hyper_stream.rs
@@include unit_client.tpl
@@include unit_upgrade.tpl
@@include unit_builder.tpl
}
pub use bld::*;
@@include unit_server.tpl
pub mod htp {
use super::*;
broadcast use {vxq::axiom_question_mark_from, vxq::axiom_slice_bytes, vxb::axiom_string_len, vxb::lemma_utf8_text};
@@include spec_http.rs
@@include unit_httpc.tpl
}
pub use htp::{Decoder as HeadDecoder, Encoder as HeadEncoder, HttpClientCodec, HttpServerCodec, HttpCodecError, head_end, no_head, content, crlf2, request_is, response_is, req_read, resp_read, HeadRead};
@@include unit_codec.tpl
@trust off
@@include stubs_async.rs
@@include unit_async.tpl
@@include unit_server_async.tpl
} // verus!
fn main() {}
