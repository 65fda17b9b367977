#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the long texts stay readable)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
MSG="message/messages.gen.go"; ENC="message/encoder.go"; DEC="message/decoder.go"; SZ="message/sizeof/sizeof.go"
BRK="gen.broker.go"; CONN="gen.conn.go"; RING="ring/buffer.go"; REC="gen.record_batch.go"; CLI="client.go"; OPT="gen.option.go"
p("C01","Reported message size equals encoded length",
  "For every protocol message (requests, responses, headers and their nested parts), every value of it and every version number, the size the message reports for that version equals the number of bytes that encoding it at that version emits (in 32-bit arithmetic). This includes null, empty and nested arrays, empty strings and byte fields, and versions outside the supported range.",
  ["inputs"],"all field values, all array lengths, all 65536 version numbers, all 218 message types",
  "No test calls any generated message method; the size prefix of a frame depends on 218 hand-independent Size/Encode pairs over unbounded values.",
  [MSG,SZ,ENC],[("Size methods mirror Encode methods field by field","message/messages.gen.go: func (t X) Size / Encode"),("size helpers","message/sizeof/sizeof.go")],
  observe=["X.Size(version) against the bytes X.Encode(e, version) writes"])
p("C02","Decoding a message inverts encoding it",
  "For every protocol message, every version number and every encodable value (strings up to 32767 bytes), decoding the bytes that encoding produced, at the same version, succeeds, consumes exactly those bytes whatever follows them, and yields the same value in every field that the version carries. Fields that the version does not carry are left as they were; null and empty arrays of message parts count as the same value.",
  ["inputs"],"all values, all array lengths, all versions, any bytes following the message",
  "Tests only round-trip single primitives with two or three sample values; no generated Decode is ever run.",
  [MSG,DEC,ENC],[("Decode methods mirror Encode methods","message/messages.gen.go: func (t *X) Decode"),("primitive readers","message/decoder.go")],
  observe=["X.Encode then (&X{}).Decode"])
p("C03","Message layout per version follows the protocol definition",
  "At every version each message emits exactly the fields that the Kafka protocol definition assigns to that version, in definition order, each in the classic (non-compact) encoding of its declared type, with arrays as a count followed by the elements in order. Sizes and decoding follow the same layout.",
  ["inputs","configurations"],"all message types, all versions, all values",
  "No test looks at the bytes of any message; a change made consistently in all three generated methods still round-trips and can only be seen against the protocol definition.",
  [MSG],[("version guards and field order in Size, Encode and Decode","message/messages.gen.go")],
  observe=["bytes written by X.Encode"])
p("C04","Primitive encodings are byte-exact",
  "For every value, each encoder primitive emits exactly the bytes the Kafka protocol prescribes: fixed-width integers big-endian two's complement, booleans one byte 0 or 1, strings a 16-bit length and the bytes (null string: length -1), byte arrays a 32-bit length and the bytes, arrays a 32-bit count and the elements (null: -1), variable-length integers zig-zag base-128, and variable-length strings and byte arrays that length followed by the bytes unchanged. Nothing else is written.",
  ["inputs"],"all values of every primitive type, all string contents including invalid UTF-8, all lengths",
  "Tests round-trip two sample values per primitive through the matching reader, which cannot see a layout error made on both sides and never looks at the bytes.",
  [ENC],[("Put* methods","message/encoder.go")],observe=["bytes received by the io.Writer"])
p("C05","Primitive decoding inverts primitive encoding",
  "For every value (strings up to 32767 bytes), reading back what an encoder primitive wrote with the matching decoder primitive returns the same value, without error, consumes exactly the bytes written and leaves the following bytes alone. Null strings, null arrays and empty ones stay distinguishable wherever the reader's result type can express it.",
  ["inputs"],"all values, any bytes before and after",
  "Tests sample two or three values per primitive with nothing before or after them in the buffer.",
  [DEC,ENC],[("decoder primitives","message/decoder.go")],observe=["results and position of the decoder"])
p("C06","Size helpers equal the encoded length of each primitive",
  "For every value, the size helper of each primitive type (fixed-width constants, strings, byte arrays, integer and string arrays, and the variable-length forms) returns exactly the number of bytes that the encoder primitive for that type emits (in 32-bit arithmetic).",
  ["inputs"],"all values and lengths, nil and empty",
  "Tests compare a few sample values.",
  [SZ,ENC],[("size helpers","message/sizeof/sizeof.go")],observe=["sizeof.X(v) against bytes written"])
p("C07","Decoding arbitrary bytes is memory-safe and bounded",
  "For every byte string and declared length, every decoder primitive and every message decode at every version returns a value or an error: it never panics, never reads beyond the declared length, and never moves the read position backwards or beyond the declared length. No collection is allocated with more elements than there are bytes left to read.",
  ["inputs"],"all byte strings, all declared lengths within the buffer, all versions, any sequence of reads",
  "Tests feed the decoder only its own encoder's output and an empty buffer.",
  [DEC,MSG],[("remaining-length checks","message/decoder.go: remains, ArrayLength"),("array loops","message/messages.gen.go: Decode methods")],
  state=[("offset,length,raw","read position, declared length and bytes","message/decoder.go: Decoder")])
p("C08","Truncated input is reported as insufficient data",
  "If the declared length cuts a valid encoding short at any byte position, then decoding - of any primitive and of any message at any version - fails with an insufficient-data error and never reports success.",
  ["inputs"],"all values, versions and cut positions",
  "Tests try the empty buffer only, and no message.",
  [DEC,MSG],[("remaining-length checks","message/decoder.go"),("error returns after each field","message/messages.gen.go")],
  observe=["IsInsufficientDataError(err)"])
p("C09","Encoder stops at and reports the first write error",
  "Once a write to the underlying stream has failed, the encoder writes nothing more, whatever is put afterwards, and flushing reports that first error. As long as no write has failed, putting a value reports no error of its own and flushing returns what the stream's own flush returns.",
  ["fault_sequences","inputs"],"every position at which the stream can fail, every sequence of put operations, every value",
  "The test presets the error; it never lets a write fail in the middle of a value.",
  [ENC],[("err field checked before each write","message/encoder.go")],state=[("err","first error","message/encoder.go: Encoder.err")],
  observe=["calls of the io.Writer, result of Flush"])
p("C10","Every API call sends exactly one well-formed request frame",
  "Each broker API call writes exactly one frame: a 32-bit size equal to the number of bytes that follow it, a request header carrying that API's key, the version negotiated for that API, the call's own correlation id and the client id, and then the caller's request encoded at that same version. This holds for all 48 APIs, all requests and all negotiated versions.",
  ["inputs","configurations"],"all 48 APIs, all request values, all negotiated versions",
  "The root package has no runnable test; the integration test needs a live broker and calls three APIs.",
  [BRK,MSG,"message/keys.go"],[("encode closures of the API methods","gen.broker.go: func (b *Broker) X"),("API keys","message/keys.go")],
  observe=["bytes written to the connection"])
p("C11","Every API call returns the response the broker encoded",
  "Each broker API call decodes its response as that API's response type at the version it sent, so that for every response value a broker encodes at that version the caller gets that value and no error. If the response cannot be decoded or the exchange fails, the call returns an error.",
  ["inputs","configurations"],"all 48 APIs, all response values, all negotiated versions",
  "No runnable test performs a call.",
  [BRK,MSG],[("decode closures of the API methods","gen.broker.go: func (b *Broker) X")],observe=["result of the API call"])
p("C12","Version negotiation picks the highest common version",
  "For every list of version ranges a broker can announce, the version used for each API is the highest one inside both the broker's announced range and the range this library implements for that API. If the two ranges of an announced API do not meet, connecting fails with an error; unknown APIs in the list are ignored and do not disturb the others.",
  ["inputs","configurations"],"all announcement lists: any order, unknown keys, any 16-bit bounds",
  "No test calls the negotiation.",
  [BRK],[("matchVersion","gen.broker.go"),("negotiateApiVersions","gen.broker.go")])
p("C13","A response is delivered to the call that sent the matching request",
  "On one connection, for any number of concurrent calls and any order of responses, a response is handed to the pending call whose correlation id it carries and to no other, at most once, and the call returns exactly what decoding that response returned. Every call registers before its request can be answered, no two of fewer than 2^32 calls share a correlation id, and responses with an unknown id are dropped without effect on other calls.",
  ["schedules","histories"],"any interleaving of calls and responses, any response order, any response bytes",
  "No test opens a connection.",
  [CONN],[("requests map under readLock","gen.conn.go: Do, messageLoop"),("atomic correlation id","gen.conn.go: Do")],
  state=[("requests","calls waiting for a response, by correlation id","gen.conn.go: Conn.requests")])
p("C14","Request frames of concurrent calls never interleave",
  "On one connection the bytes of each request frame are written and flushed to the stream contiguously: while one call is writing or flushing its frame, no other call writes to the stream. A call that failed to write its frame returns that error and leaves no pending entry behind.",
  ["schedules","fault_sequences"],"any number of concurrent calls, any schedule, any write failure",
  "No test opens a connection.",
  [CONN],[("writeLock around encode and flush","gen.conn.go: Do")])
p("C15","The receive buffer is a lossless FIFO",
  "For one reader and one writer, each call moving n bytes with 0 <= n <= len(data), under every schedule, chunking and buffer size of at least 2, the bytes the reader receives are exactly the bytes the writer wrote, in order: none lost, duplicated, invented or overwritten before they are read. Neither side ever touches memory outside the buffer or bytes the other side currently owns.",
  ["schedules","inputs"],"all interleavings of one reader and one writer, all chunk sizes, all buffer sizes >= 2",
  "The stress test runs one schedule of small chunks that never fills the buffer; at the pinned commit it failed 14 times in 200000 runs.",
  [RING],[("start/next positions published with atomics","ring/buffer.go: WriteN, ReadN")],
  state=[("start,next,data","read position, write position, bytes","ring/buffer.go: Buffer")])
p("C16","The receive buffer loses no wake-up and honours close",
  "A side of the receive buffer blocks only after it has published its progress, signalled the other side and re-checked that it cannot proceed, and a signal sent before the other side starts waiting is not lost. Once the buffer is closed neither side blocks for good: reads still return all bytes that were written before the close and then report failure, and a write that does not fit reports failure.",
  ["schedules"],"all interleavings of one reader, one writer and close",
  "Timing-dependent; the tests assert nothing about waiting and never close the buffer.",
  [RING],[("Wait/Release signal","ring/buffer.go: mutex"),("publish, signal, re-check loops","ring/buffer.go: WriteN, ReadN")])
p("C17","Returned response data is never changed by later traffic",
  "Data returned from a call, including byte fields, is never modified by the library afterwards, whatever other responses arrive on the connection. Byte slices produced by the decoder have no spare capacity, so that appending to one cannot overwrite neighbouring data.",
  ["histories","inputs"],"all responses and all later traffic on the connection",
  "No test receives two responses.",
  [CONN,DEC],[("one buffer per response","gen.conn.go: messageLoop"),("three-index slices","message/decoder.go: Bytes, VarBytes")])
p("C18","Calls fail instead of hanging once the connection is gone",
  "When the connection ends for any reason - read error, end of stream, malformed size, or Close - every pending and every later call returns, also one that is writing its request, with its own response if that was received completely and with an error otherwise. Both background workers stop and Close returns.",
  ["fault_sequences","schedules"],"every point at which the connection can end, any number of pending calls",
  "No test opens a connection, let alone loses one.",
  [CONN,RING],[("done channels and ring close on every exit","gen.conn.go: readLoop, messageLoop, Do, Close")])
p("C19","Record batches are self-consistent and follow the record format",
  "For every record batch (any records shorter than 2 GiB, with any keys, values, headers, offsets and timestamps) the size it reports equals the number of bytes it encodes, and each record's length prefix equals the number of bytes of that record that follow the prefix. The layout is that of the Kafka record batch format, magic 2: batch fields, record count, then per record length, attributes, timestamp delta in milliseconds, offset delta, key, value, header count and headers.",
  ["inputs"],"all batches, any number of records and headers, with or without headers",
  "No test encodes a record batch.",
  [REC],[("Size, Encode, encodeMessage, sizeofMessage","gen.record_batch.go")])
p("C20","The client dials the node that the cluster metadata names",
  "Dialling a partition leader connects to the host and port which the metadata lists for the broker whose id is the leader of exactly that topic and partition; dialling the controller connects to the broker with the controller's id; dialling a group coordinator connects to the host and port the cluster returned for exactly that group. If the topic, partition or broker is missing from the metadata, or the coordinator lookup fails or reports an error, the call fails and dials no node; bootstrap servers are tried in order until one accepts.",
  ["inputs","fault_sequences"],"all metadata responses, all topics and partitions, any subset of bootstrap servers failing",
  "The client has no runnable test.",
  [CLI],[("findTopic, findPartition, dialNode, dialCoordinator, dialBootstrap","client.go")])
p("C21","No connection outlives the call that opened it unless returned",
  "Every connection opened while serving a client call is either returned to the caller or closed before the call returns, on success and on every error path; a connection that is returned is open.",
  ["fault_sequences","inputs"],"every failure point of every client call",
  "The client has no runnable test.",
  [CLI,BRK,CONN],[("close on error and after bootstrap lookups","client.go: dialBootstrap; gen.broker.go: NewBroker")])
p("C22","Connection options take effect exactly as given",
  "Options are applied in order, later ones overriding earlier ones; every connection is made with the configured dialer (the default one if none or nil was given), over TLS with exactly the given configuration if one was given and in plain TCP otherwise, to exactly the given address. Every request carries the configured client id.",
  ["configurations"],"all option lists, all addresses",
  "No test builds a connection.",
  [OPT,CONN],[("buildConfig, WithDialer, WithTLS, dial","gen.option.go, gen.conn.go")])
p("C23","Every answered call eventually returns",
  "If the broker keeps answering requests and the process keeps running, every call on a connection eventually returns with its response, whatever the load and scheduling.",
  ["schedules","histories"],"all fair schedules",
  "Progress over unbounded time cannot be observed by a finite test.",
  [CONN,RING],[("worker loops","gen.conn.go: readLoop, messageLoop")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
