#!/usr/bin/env python3
# writes MANIFEST.json
import json
T="contract-based deductive verification (govc: weakest-precondition style obligations from /repo's SSA, discharged by z3/cvc5)"
CLAIMED={
 "C01":"All 218 Size/Encode pairs and the size helpers, per version region, unbounded values and array lengths. Assumes the stdlib contracts listed in the evidence.",
 "C02":"All 218 Decode methods against the encoding relation that Encode is proved to establish; nested messages by contract. Assumes the stdlib contracts listed in the evidence.",
 "C03":"Size, Encode and Decode of all 218 types against contracts/messages.schema (the protocol definition, transcribed), every version region.",
 "C04":"Every Put* method against the byte-level protocol rules, all values and lengths.",
 "C05":"Every decoder primitive against the encoding relation of the matching encoder primitive, any surrounding bytes.",
 "C06":"Every size helper against the encoded length, all values.",
 "C07":"Every decoder primitive and all Decode methods: no panic, reads within the declared length, position monotone, allocation bounded by the bytes left; arbitrary bytes.",
 "C08":"Every decoder primitive and Decode method: a cut encoding gives an insufficient-data error, any cut position.",
 "C09":"Every Put* method, Flush and all Encode methods: nothing is written after a failed write and the first error is kept.",
 "C10":"The 48 API methods against the frame layout and contracts/apis.table, plus Size and Encode of every request type and the header, all requests and versions.",
 "C11":"The 48 API methods: response type, version and error paths, plus Decode of every response type, all responses.",
 "C12":"Version negotiation and NewBroker, per API, any announced list (element contracts by ghost index).",
 "C13":"Conn.Do, readLoop, messageLoop, Connect: monitor invariant of the pending map, permission to reply, frame synchronisation over an arbitrary byte stream, any schedule by thread-modular reasoning.",
 "C14":"Conn.Do: the encoder is touched under its lock only, flushed before release, one frame per call; entry removed on failure.",
 "C15":"Buffer.ReadN/WriteN/New: ring contents, FIFO order and byte equality as a thread-modular invariant over the sequence counters, any capacity, sizes and schedule.",
 "C16":"Buffer.ReadN/WriteN/Close: wake-up obligations, close semantics and failure conditions as rely/guarantee conditions, any schedule. Safety part only (no wait is entered that a needed signal was consumed for).",
 "C17":"messageLoop and the decoder primitives: a buffer that a response was decoded over is not written again; slices carry no spare capacity.",
 "C18":"Conn.Do, readLoop, messageLoop, Close, Connect: every wait includes the end of the worker, workers end and close what others wait for. Safety part only; termination of single steps is assumed.",
 "C19":"RecordBatch.Size, RecordBatch.Encode and their helpers against the record batch format, any records and headers (a Header is an abstract sequence of pairs that every Range call enumerates, in any order); MapHeader.Range meets that contract.",
 "C20":"Client dial methods against the metadata the cluster returned, any metadata.",
 "C21":"Client dial methods, NewBroker, Connect: every opened connection is closed or returned on every path.",
 "C22":"Options, buildConfig, Connect, NewBroker and the client: configuration flow, any option list.",
}
NA={"C23":"liveness under fairness over unbounded schedules: contracts on functions and invariants do not express fairness; the safety half (no lost wake-up, fail instead of hang) is C16 and C18"}
todo=[f"C{i:02d}" for i in range(10,23)]
for p in todo:
    if p not in CLAIMED: NA[p]="check not built yet"
m=dict(version=1,setup_cmd="./build.sh",checks=[],not_applicable=[dict(property=k,reason=v) for k,v in sorted(NA.items())],
  notes="No hooks in /repo; only fix: commits. Replay and bounded harnesses are added by go test -overlay.")
for p,n in sorted(CLAIMED.items()):
    m["checks"].append(dict(property=p,quick_cmd=f"./run.sh {p}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p}",evidence_file=f"evidence/{p}.json",technique=T,level="proof",level_note=n))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
