// =====================================================================================================
// Trusted stubs: hyper 0.10 BufReader, bytes 0.4 BytesMut, tokio_codec traits
// =====================================================================================================
@@include stubs_bytes_reader.rs
@@include stubs_bytesmut.rs
@@include stubs_codec.rs
