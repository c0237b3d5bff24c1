#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that anchors stay readable)."""
import json
B='websocket-base/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('P01','Frame headers decode exactly as RFC 6455 section 5.2 defines them',
  'Decoding a frame header from any byte stream yields exactly the final bit, reserved bits, opcode, masking key and payload length that RFC 6455 5.2 assigns to its first bytes, and consumes exactly the bytes of the header (2 to 14). A header that is not minimally encoded, that declares a control-frame payload above 125 bytes, or that marks a control frame as not final is refused with an error, and every other complete header is accepted. A stream that ends inside the header yields the no-data error.',
  ['inputs'],'all byte streams (all 2^16 first two bytes, all extended lengths, all masks, every truncation point)',
  'The tests decode two sample headers; the statement is about every bit pattern and boundary (125/126/65535/65536, 2^63 lengths, truncations).',
  [B+'ws/util/header.rs'],[('read_header','ws/util/header.rs')],['return value of the header decoder','bytes left in the reader'])
p('P02','Frame headers encode canonically, and invalid ones are refused unwritten',
  'Encoding a frame header writes exactly the canonical RFC 6455 bytes: flags and opcode, mask bit with the shortest length form, the big-endian extended length, then the masking key if present. An opcode above 15, or a control opcode with a payload length above 125, is refused with an error before any byte is written. Decoding what was encoded gives back the same header.',
  ['inputs'],'all header values: 16 flag combinations, 256 opcodes, 2^64 lengths, all masking keys or none',
  'The tests encode two headers; length-class boundaries and the refusal before any write are universally quantified.',
  [B+'ws/util/header.rs'],[('write_header','ws/util/header.rs')],['bytes written to the writer','Ok/Err result'])
p('P03','Any frame written by the library reads back as the same frame',
  'Every data frame or message that is successfully serialised, masked or unmasked, is read back by a receiver expecting that masking as one frame with the same final bit, reserved bits, opcode and payload. Reading it consumes exactly the bytes that serialisation wrote, so that whatever follows on the stream is left untouched.',
  ['inputs'],'all frames (opcodes, reserved bits, final bit, payloads of every length class), both roles, every masking key, any following bytes',
  'Tests write and read a handful of fixed frames; the random masking key, payload length classes and following bytes need a universal argument.',
  [B+'ws/dataframe.rs',B+'dataframe.rs',B+'message.rs',B+'ws/util/header.rs',B+'ws/util/mask.rs'],
  [('DataFrame::write_to','ws/dataframe.rs'),('read_dataframe/read_dataframe_with_limit/read_dataframe_body','dataframe.rs')],
  ['bytes on the writer','frame returned by the reader','bytes left in the reader'])
p('P04','Masking XORs byte i with key byte i mod 4, however the payload is written',
  'Masking a payload XORs its i-th byte with the (i mod 4)-th byte of the masking key and keeps its length, so that applying it twice gives the payload back. When a payload is written through the masking writer in any sequence of pieces, including short or failing writes of the underlying writer, the bytes that arrive underneath are a prefix of the masked payload.',
  ['inputs','histories','fault_sequences'],'all payloads, all keys, all ways of chunking the writes and all short-write behaviours of the underlying writer',
  'The tests mask one buffer in one write; chunk boundaries not divisible by four and partial writes are not sampled.',
  [B+'ws/util/mask.rs'],[('Masker::write','ws/util/mask.rs'),('mask_data','ws/util/mask.rs')],['bytes reaching the underlying writer','result of mask_data'],
  [('key position','how many payload bytes were masked so far, mod 4','ws/util/mask.rs Masker')])
p('P05','The predicted frame size is exactly the number of bytes serialised',
  'For every frame and every message, masked or not, the size the library reports in advance equals the number of bytes that serialising it produces, and the reported payload size equals the number of payload bytes. Hence the asynchronous encoder always reserves enough room and never fails for lack of buffer space.',
  ['inputs'],'all frames and messages, all payload lengths, both roles, any pre-filled output buffer',
  'Tests check a few short payloads; the length-class boundaries and combinations with masking and close codes are unbounded.',
  [B+'ws/dataframe.rs',B+'message.rs',B+'dataframe.rs',B+'codec/ws.rs'],[('DataFrame::frame_size','ws/dataframe.rs'),('size','message.rs, dataframe.rs'),('encode','codec/ws.rs')],
  ['frame_size/message_size/size vs. bytes written'])
p('P06','Client frames are masked, server frames are not, and the wrong kind is refused',
  'A client endpoint masks every frame it sends and a server endpoint masks none. A server endpoint refuses every unmasked incoming frame and a client endpoint refuses every masked one, with an error and without delivering any of its payload. This holds for the synchronous and the asynchronous interface alike.',
  ['inputs','configurations'],'all frames, both roles, sync and async, connections obtained through every constructor',
  'Tests use one frame per direction; the refusal for every opcode/length and the role wiring through every constructor are not sampled.',
  [B+'dataframe.rs',B+'codec/ws.rs','src/sender.rs','src/receiver.rs','src/client/sync.rs','src/server/upgrade/sync.rs','src/client/builder.rs'],
  [('read_dataframe_body','dataframe.rs'),('Sender::new(mask)','src/sender.rs'),('Client::unchecked','src/client/sync.rs'),('DataFrameCodec::new','codec/ws.rs')],
  ['mask bit on the wire','Err on wrongly masked frames'])
p('P07','A frame is read whole or not at all, and never past its end',
  'Reading a frame from a blocking stream returns success only when the entire header and payload were read, and then consumes exactly those bytes. If the stream ends anywhere inside the frame the result is the no-data error, never a shortened frame; any other read error is passed on as an I/O error.',
  ['inputs','fault_sequences'],'all frames, every truncation point, every way the stream splits its reads, every read error',
  'Tests read complete frames from memory; truncation points, short reads and failing reads are not covered.',
  [B+'dataframe.rs',B+'result.rs'],[('read_dataframe','dataframe.rs'),('read_dataframe_with_limit','dataframe.rs'),('From<io::Error>','result.rs')],
  ['frame or error returned','bytes left in the reader'])
p('P08','Frames above the configured size are refused before their payload is read',
  'A frame whose declared payload length exceeds the configured frame limit is refused with an error as soon as its header is complete, without reading, buffering or allocating its payload. A frame within the limit is never refused because of its size. This holds for the synchronous receiver and for the asynchronous codec.',
  ['inputs','configurations'],'all declared lengths up to 2^64-1, all limits, sync and async',
  'One test pins one limit; the boundary and the no-payload-consumed part hold for every limit and length.',
  [B+'dataframe.rs',B+'codec/ws.rs','src/receiver.rs'],[('read_dataframe_with_limit','dataframe.rs'),('DataFrameCodec::decode','codec/ws.rs'),('new_with_limits','codec/ws.rs, src/receiver.rs')],
  ['Err result','bytes left in the reader','memory allocated'])
p('P09','A message is exactly the in-order concatenation of its fragments',
  'Assembling a message from its frames gives a message whose kind is that of the first frame and whose payload is the concatenation of all frame payloads in order. An empty list, a continuation or undefined opcode in the first frame, a non-continuation opcode in any later frame, or a reserved bit set in any frame makes assembly fail, and nothing else does except malformed text or close payloads.',
  ['inputs'],'all lists of frames: any count, opcodes, reserved bits, payload sizes',
  'Tests assemble one or two fixed lists.',
  [B+'message.rs'],[('Message::from_dataframes','message.rs'),('OwnedMessage::from_dataframes','message.rs')],['message or error returned'])
p('P10','Delivered text is always valid UTF-8, and valid text is never refused',
  'A text message or the reason of a close message is delivered only if its complete payload is well-formed UTF-8, and it is then delivered unchanged; otherwise the result is an error and no message. Validity is judged on the reassembled payload, so a character split across fragments is accepted.',
  ['inputs'],'all byte payloads and all ways of splitting them into fragments',
  'Tests use ASCII; malformed sequences and fragment boundaries inside a character are unbounded.',
  [B+'message.rs',B+'ws/util/mod.rs'],[('from_utf8 check in from_dataframes','message.rs'),('bytes_to_string','ws/util/mod.rs')],['Ok/Err of message assembly'])
p('P11','Close messages carry their status code and reason exactly',
  'A close frame with an empty payload is a close without status; with at least two bytes it is the big-endian status code followed by the UTF-8 reason; with exactly one byte it is an error. Sending a close message produces exactly that encoding, so status code and reason survive a send and a receive unchanged.',
  ['inputs'],'all 65536 codes, all reasons, all close payloads including length 0 and 1',
  'Tests use one code and reason.',
  [B+'message.rs'],[('from_dataframes (Close arm)','message.rs'),('write_payload / take_payload','message.rs')],['close data delivered','bytes on the wire'])
p('P12','The blocking receiver reassembles fragments and passes control frames through',
  'Receiving from a blocking stream delivers data messages in order, each built from one initial data frame and the continuation frames that follow it, and delivers a control frame arriving between fragments immediately as its own message without losing or altering the fragments collected so far. A continuation frame with no message open, or a new data frame while one is open, is refused with an error.',
  ['histories','inputs'],'all sequences of incoming frames and all interleavings of control frames with fragments, over any number of receive calls',
  'Tests receive a few fixed sequences; the state kept between receive calls ranges over all histories.',
  ['src/receiver.rs',B+'ws/receiver.rs'],[('Receiver::recv_message_dataframes','src/receiver.rs'),('Receiver::recv_message','ws/receiver.rs')],
  ['messages returned by successive receive calls'],[('buffer','fragments of the open message','src/receiver.rs Receiver')])
p('P13','The asynchronous codec reassembles fragments and passes control frames through',
  'Decoding from an asynchronous stream delivers data messages in order, each built from one initial data frame and the continuation frames that follow it, and delivers a control frame arriving between fragments immediately as its own message without losing or altering the fragments collected so far. A continuation frame with no message open, or a new data frame while one is open, is refused with an error.',
  ['histories','inputs'],'all sequences of incoming frames, all interleavings of control frames with fragments, over any number of decode calls',
  'Tests decode a few fixed sequences; the state kept between decode calls ranges over all histories.',
  [B+'codec/ws.rs'],[('MessageCodec::decode','codec/ws.rs')],['messages returned by successive decode calls'],
  [('buffer','fragments of the open message','codec/ws.rs MessageCodec')])
p('P14','Asynchronous decoding is independent of how the network chunks the bytes',
  'While the bytes of a frame are incomplete the decoder asks for more without consuming, altering or refusing anything; once complete it consumes exactly the frame and leaves every later byte in place. The sequence of frames and messages decoded from a byte stream is therefore the same for every way of splitting that stream into chunks.',
  ['inputs','schedules','histories'],'all byte streams and all chunkings',
  'Tests feed whole frames; the number of chunkings is exponential in the stream length.',
  [B+'codec/ws.rs'],[('DataFrameCodec::decode','codec/ws.rs'),('MessageCodec::decode','codec/ws.rs')],['decoded items','bytes left in the buffer'])
p('P15','An unfinished message can never make the receiver hoard unbounded memory',
  'As long as no error has been reported, the fragments retained for an incomplete message never total more payload than the configured message limit plus one frame, nor number more than 2^20; the fragment that goes beyond is answered with an error. A message whose payload plus 64 bytes per fragment stays below the limit is never refused for its size.',
  ['histories','configurations'],'all sequences of fragments (including empty ones), all limits, sync and async',
  'One test exercises one limit; the bound is an invariant over unbounded histories.',
  ['src/receiver.rs',B+'codec/ws.rs'],[('recv_message_dataframes limit checks','src/receiver.rs'),('MessageCodec::decode limit checks','codec/ws.rs')],
  ['error result','total size of retained fragments'],[('buffer','fragments of the open message','src/receiver.rs, codec/ws.rs')])
p('P16','No input from the peer can panic or abort the frame and message layer',
  'Whatever bytes a peer sends, decoding frames and assembling messages terminates with a value or an error: it never panics, overflows an integer, indexes out of bounds, or allocates memory in proportion to a length the peer merely declared beyond the configured limit.',
  ['inputs','histories'],'all byte streams, all limits, both roles, sync and async',
  'Tests feed mostly valid frames; absence of panics is a statement about every byte stream.',
  [B+'dataframe.rs',B+'message.rs',B+'codec/ws.rs',B+'ws/util/header.rs','src/receiver.rs'],
  [('read_dataframe*','dataframe.rs'),('from_dataframes','message.rs'),('decode','codec/ws.rs'),('recv_message_dataframes','src/receiver.rs')],['process does not panic or abort'])
p('P17','Borrowed and owned messages convert into each other without loss',
  'Converting a message between its borrowed and its owned form, in either direction, preserves its kind, payload, and close status and reason, as far as the target form can express them (a text payload that is not UTF-8 and a close with reason but no status are the inputs the owned form cannot express). Both forms serialise to the same bytes for the same masking key, and taking the payload out of a message yields exactly the payload bytes it would send.',
  ['inputs'],'all messages of every kind',
  'Tests convert a few samples.',
  [B+'message.rs'],[('From<Message> for OwnedMessage','message.rs'),('From<OwnedMessage> for Message','message.rs'),('take_payload, write_payload','message.rs')],['converted value','bytes written'])
p('P18','Sending a message puts exactly one final frame of the right kind on the wire',
  'Sending a message writes exactly one frame, final and with no reserved bit, whose opcode is 1 for text, 2 for binary, 8 for close, 9 for ping and 10 for pong and whose payload is the message content, masked according to the role. If the message cannot be sent legally (a control payload above 125 bytes) an error is returned and nothing is written.',
  ['inputs'],'all messages, both roles, sync and async senders',
  'Tests send a few short messages.',
  ['src/sender.rs',B+'ws/sender.rs',B+'message.rs',B+'codec/ws.rs',B+'ws/dataframe.rs'],[('Sender::send_message/send_dataframe','ws/sender.rs, src/sender.rs'),('Message serialize','message.rs'),('MessageCodec::encode','codec/ws.rs')],['bytes on the wire'])
p('P19','The handshake accept value is base64(SHA-1(key + GUID))',
  'For every 16-byte handshake key the accept value is the SHA-1 digest of the base64 text of the key followed by 258EAFA5-E914-47DA-95CA-C5AB0DC85B11, rendered in base64. Parsing a key header succeeds exactly for texts that decode as base64 to 16 bytes and an accept header exactly for texts that decode to 20 bytes, and printing what was parsed gives an equal value back.',
  ['inputs'],'all keys, all header texts',
  'Tests use the RFC example key.',
  [B+'header.rs','src/header/accept.rs','src/header/key.rs'],[('WebSocketAccept::new','header.rs'),('FromStr/serialize','header.rs')],['accept value','parse results'])
p('P20','A server accepts exactly the requests that are valid WebSocket handshakes',
  'A request is recognised as an upgrade exactly when its method is GET, its HTTP version is at least 1.1, it carries a well-formed key, its Upgrade header names websocket, its Connection header contains the token upgrade in any letter case, and a version header, if present, is 13. Any other request is refused with the error naming a violated condition, the connection and request handed back, and no response written. The decision is the same for a stream, an asynchronous stream, a request already parsed, and a request that the server of the HTTP library has read.',
  ['inputs'],'all combinations of method, HTTP version and headers',
  'Tests try a single valid request and a few refusals; the conditions combine freely.',
  ['src/server/upgrade/mod.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs'],[('validate','src/server/upgrade/mod.rs'),('into_ws','src/server/upgrade/sync.rs, async.rs')],['Ok/Err of the upgrade'])
p('P21','An accepted handshake always answers 101 with the mandatory headers',
  'Accepting a request writes one response with status 101, Upgrade: websocket, Connection: Upgrade and the accept value that belongs to the client\'s key, plus the chosen protocols, extensions and custom headers; custom headers can never replace or duplicate the three mandatory ones. Rejecting writes one 400 response and hands the stream back.',
  ['inputs','configurations'],'all requests, all custom headers, all chosen protocols and extensions',
  'Tests do not inspect responses.',
  ['src/server/upgrade/mod.rs','src/server/upgrade/sync.rs'],[('prepare_headers','src/server/upgrade/mod.rs'),('send','src/server/upgrade/mod.rs'),('internal_accept/internal_reject','src/server/upgrade/sync.rs')],['bytes of the response'])
p('P22','A client only connects on a response that proves a WebSocket handshake',
  'A client connection succeeds only if the response has status 101, an Upgrade header that names websocket (in any letter case) and nothing else, a Connection header containing the token upgrade in any letter case, and the accept value computed from the very key the client sent. Any other response yields an error and no connection, and a response satisfying them all is accepted.',
  ['inputs'],'all responses: status, presence, absence and value of each header, all keys',
  'Tests cover one or two canned responses.',
  ['src/client/builder.rs'],[('ClientBuilder::validate','src/client/builder.rs')],['Ok/Err of connecting over a scripted stream'])
p('P23','A client request carries every mandatory handshake field and the right target',
  'The request a client sends is a GET over HTTP/1.1 for the URL\'s path and query, with Host (port omitted only when none or the default is given), Upgrade: websocket, Connection: Upgrade, version 13, one 16-byte key, and exactly the protocols, extensions, origin and custom headers the user configured. The key announced is the one the response is checked against.',
  ['inputs','configurations'],'all URLs and builder configurations',
  'Tests inspect two or three URLs.',
  ['src/client/builder.rs'],[('build_request','src/client/builder.rs'),('set_path/host header','src/client/builder.rs')],['bytes of the request'])
p('P24','The handshake hands over to the WebSocket stream without losing a byte',
  'Bytes that arrive in the same read as the end of the handshake are delivered, in order and exactly once, to the WebSocket layer, on client and server, synchronously and asynchronously, also when the server of the HTTP library read the request. The same holds when a client is split into reader and writer, turned back into its stream with buffered bytes, or when the codec of a framed stream is replaced.',
  ['inputs','schedules'],'all ways the peer\'s bytes are grouped into reads, all first frames sent along with the handshake',
  'Tests never send data together with the handshake.',
  ['src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/client/sync.rs','src/client/builder.rs',B+'ws/util/mod.rs'],
  [('into_ws / internal_accept (Buffer)','src/server/upgrade/sync.rs'),('split, into_stream','src/client/sync.rs'),('update_framed_codec','ws/util/mod.rs'),('connect_on','src/client/builder.rs')],['messages received after the handshake'])
p('P25','Scheme and port of the URL decide the endpoint, and wss is never plaintext',
  'A client connects to the host of its URL at the explicit port, or at 443 for secure and 80 for plain URLs when none is given. TLS is used exactly when the scheme is secure (or the caller demands it explicitly), so no handshake byte of a wss URL is ever sent unencrypted through the scheme-driven entry points.',
  ['inputs','configurations'],'all URLs and TLS settings',
  'Tests do not open connections.',
  ['src/client/builder.rs'],[('extract_host_port / is_secure_url','src/client/builder.rs'),('connect','src/client/builder.rs')],['address connected to','first bytes sent'])
p('P26','Handshake list headers parse and print without losing structure',
  'Parsing an extension yields its name and its parameters in order, each split at the first equals sign into a name and an optional value, with surrounding blanks removed; printing a parsed extension and parsing it again yields an equal value. Protocol lists, extension lists and version headers likewise survive printing and parsing.',
  ['inputs'],'all header texts built from tokens, blanks, semicolons, commas and equals signs',
  'Tests parse one sample of each.',
  ['src/header/extensions.rs','src/header/protocol.rs','src/header/version.rs','src/header/origin.rs'],[('Extension::from_str / Display','src/header/extensions.rs'),('parse_header / fmt_header','src/header/*.rs')],['parsed and printed header values'])
p('P27','The HTTP codec consumes exactly one message head and waits for incomplete ones',
  'The asynchronous HTTP codecs take exactly the bytes up to and including the blank line (CRLF CRLF) that ends a request or response head as one message and leave all following bytes in the buffer; blank lines in front of a head belong to it and do not end it. While no such blank line has arrived nothing is consumed and no message is produced; a head that cannot be parsed yields an error and never disappears silently.',
  ['inputs','schedules'],'all byte streams and chunkings',
  'Tests feed whole heads.',
  ['src/codec/http.rs'],[('split_off_http','src/codec/http.rs'),('HttpClientCodec::decode / HttpServerCodec::decode','src/codec/http.rs')],['decoded head','bytes left in the buffer'])
p('P28','Configured size limits reach the connection, through every constructor',
  'The frame limit and the message limit that a user configures when building or accepting a connection are the limits the resulting connection enforces, each in its own role; when none is configured the documented defaults (100 MiB frames, 200 MiB messages) apply.',
  ['configurations'],'all pairs of limits, every way of building a client or accepting a connection',
  'Tests never configure limits through the builders.',
  ['src/client/builder.rs','src/client/sync.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/receiver.rs',B+'codec/ws.rs'],
  [('connect_on / async_connect_on','src/client/builder.rs'),('unchecked_with_limits','src/client/sync.rs'),('internal_accept_with_limits','src/server/upgrade/sync.rs, async.rs')],['error when a frame or message exceeds the limit'])
p('P29','Receive iterators yield every result in order and never end by themselves',
  'The iterators over incoming frames and messages yield, one for one and in order, exactly the results that calling receive repeatedly would give, errors included. They never report the end of iteration on their own, so an error or a close never silently truncates the stream.',
  ['histories'],'all incoming streams, any number of calls',
  'Tests take a fixed number of items.',
  [B+'ws/receiver.rs','src/client/sync.rs','src/receiver.rs'],[('DataFrameIterator::next / MessageIterator::next','ws/receiver.rs')],['items yielded'])
p('P30','A read/write pair reads only from its reader and writes only to its writer',
  'A stream made of a separate reader and writer returns from every read exactly what the reader returns and passes every write and flush to the writer, with their results unchanged, and splitting it gives back exactly the two halves.',
  ['inputs','fault_sequences'],'all byte streams, all short reads/writes and errors of the two halves',
  'Tests use in-memory cursors that never fail or return short.',
  [B+'stream.rs'],[('ReadWritePair Read/Write impls','stream.rs'),('Splittable','stream.rs')],['bytes read and written','results passed through'])
p('P31','Masking keys are unpredictable',
  'Every masked frame uses a fresh masking key that an observer cannot predict from earlier traffic.',
  ['histories'],'all frame sequences sent by a client',
  'Statistical tests cannot establish unpredictability; it rests on the random generator.',
  [B+'ws/util/mask.rs'],[('gen_mask','ws/util/mask.rs')],['masking keys on the wire'])
p('P32','Reader and writer halves can be used from two threads at once',
  'After splitting a connection, any interleaving of one thread sending and another receiving delivers the same messages in each direction as running the two threads one after the other.',
  ['schedules'],'all interleavings of the two halves',
  'No test uses two threads; schedules cannot be enumerated by running.',
  ['src/client/sync.rs',B+'stream.rs'],[('Client::split','src/client/sync.rs')],['messages in both directions'])
p('P33','An asynchronous handshake eventually completes once its bytes are available',
  'If the peer sends a complete handshake and the transport keeps delivering and accepting bytes, the asynchronous connect and accept futures resolve after finitely many polls.',
  ['schedules'],'all poll schedules of the transport',
  'Liveness over unbounded schedules is out of reach of finite tests.',
  ['src/client/builder.rs','src/server/upgrade/async.rs'],[('async_connect_on','src/client/builder.rs'),('into_ws','src/server/upgrade/async.rs')],['future resolves'])
p('P34','A listening server reports each connection faithfully and outlives bad ones',
  'Each result a listening server gives, blocking or asynchronous, with TLS or without, is the outcome of the handshake on one connection made to its socket: an accepted upgrade runs over that connection (inside the TLS session if the server has an acceptor; the asynchronous server pairs it with the address of its peer), and a refused handshake hands back that same connection, the request if one was parsed, the bytes already taken from it beyond its head and the reason. When there is no stream to hand back, because taking the connection or its TLS handshake failed, only that I/O error is reported. A failed connection never ends the sequence of results nor alters the server for later connections.',
  ['histories','inputs','fault_sequences'],'all sequences of connections, all bytes they send, every failure of the listener or the TLS handshake',
  'No test listens: the only server test checks that a non-blocking server without peers returns an error.',
  ['src/server/sync.rs','src/server/async.rs','src/server/mod.rs'],[('accept / Iterator::next','src/server/sync.rs'),('incoming','src/server/async.rs'),('InvalidConnection','src/server/mod.rs')],['results of accept and of the iterators','stream, request, buffer and error of a refused connection'])
p('P35','What a connection reports about its handshake is what the peer said',
  'The protocols, extensions, origin, key, version and URI that an upgrade reports are those of the request the client sent, in order and whatever has meanwhile been chosen for the answer; the protocols and extensions that a client reports, and the headers an asynchronous client hands over, are those of the response the server sent. A header that is absent gives none, repeated header lines count as one list, and letter case of header names does not matter.',
  ['inputs'],'all requests and responses, all combinations of the headers reported on',
  'Tests never look at what an upgrade or a client reports about the handshake.',
  ['src/server/upgrade/mod.rs','src/client/sync.rs','src/header/protocol.rs','src/header/extensions.rs','src/header/origin.rs'],[('protocols / extensions / origin / uri / key / version','src/server/upgrade/mod.rs'),('protocols / extensions','src/client/sync.rs'),('connect_on / async_connect_on','src/client/builder.rs')],['values returned by the accessors'])
p('P36','Socket controls act on the socket of the connection, exactly as named',
  'Through a client, a reader, a writer, an upgrade or a server, blocking or asynchronous where there is such a method, over TCP, TLS or a boxed stream: each control does exactly what its name says to the one socket beneath and gives what the system answered. shutdown_sender and Writer::shutdown close the sending side, shutdown_receiver and Reader::shutdown the receiving side, Client::shutdown and both shutdown_all both; set_nodelay and set_nonblocking set that option to the value given; peer_addr, local_addr and tcp_stream are those of that socket.',
  ['inputs'],'all streams, all arguments, all answers of the system',
  'Tests never shut a connection down, look at its addresses or set its options; for a server only set_nonblocking(true) is tried.',
  ['src/client/sync.rs','src/receiver.rs','src/sender.rs','src/server/sync.rs','src/server/async.rs','src/server/upgrade/sync.rs',B+'stream.rs'],[('shutdown_sender / shutdown_receiver / shutdown / peer_addr / local_addr / set_nodelay / set_nonblocking','src/client/sync.rs'),('shutdown / shutdown_all','src/receiver.rs'),('shutdown / shutdown_all','src/sender.rs'),('as_tcp',B+'stream.rs')],['what still passes in each direction','options of the socket','addresses reported'])
p('P37','A client connection that fails says what it failed for',
  'The error of a failed client connection names the cause that occurred, through every entry point, blocking or asynchronous. A response with a status other than 101 gives that status and, if it is a redirection with a Location, that location; a response with status 101 that is not the one asked for gives a response error. A response that is no HTTP gives the error of the HTTP parser; a stream that fails, and a name or address that cannot be reached, gives the I/O error of that kind; a URL that names no host gives the URL error; a TLS handshake that fails gives a TLS error.',
  ['inputs','fault_sequences'],'all responses, all failures of stream, name lookup, connecting and TLS handshake',
  'Tests connect to nothing that refuses them: no test looks at the error of a connection over a stream.',
  ['src/result.rs','src/client/builder.rs',B+'result.rs'],[('validate / connect_on / connect* / async_connect*','src/client/builder.rs'),('towse, From impls','src/result.rs')],['error of a failed connection'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P), max(len(d['title']) for d in P))
