import json
C="yamux/src/connection.rs"; S="yamux/src/connection/stream.rs"; F="yamux/src/connection/stream/flow_control.rs"
CL="yamux/src/connection/closing.rs"; CU="yamux/src/connection/cleanup.rs"; R="yamux/src/connection/rtt.rs"
IO="yamux/src/frame/io.rs"; H="yamux/src/frame/header.rs"; FR="yamux/src/frame.rs"; CH="yamux/src/chunks.rs"; T="yamux/src/tagged_stream.rs"; L="yamux/src/lib.rs"
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Bytes arrive intact, in order, once, and on the right stream",
 "The bytes read from a stream are always a prefix of the bytes written to the other end of that same stream: same order, nothing lost, repeated, altered or taken from another stream. This holds for every read interface (byte reads of any size, packet reads, both mixed on one stream), however writes are split, however many streams interleave, and however the transport fragments the bytes.",
 ["inputs","schedules","configurations"],"all write/read size sequences, read interfaces, stream interleavings, task schedules, transport fragmentations and configurations",
 "the tests echo a few equal-sized messages over loopback TCP with one read style; order and isolation must hold for every fragmentation, schedule and mix of read interfaces",
 [S,C,CH,IO],[("per-stream receive buffer and partial-chunk cursor","Chunks::push/pop, Chunk::advance in "+CH),("demultiplexing by stream id","Connection on_data in "+C),("poll_read / poll_next copy-out",S)],
 [("buffer","delivered but unread bytes of a stream",S)],["values returned by Stream reads","bytes accepted by Stream writes"])
p("C02","Closing a write half delivers everything, then a final end-of-stream",
 "When one end closes its writing half of a stream, the other end reads every byte written before the close and only then end-of-stream, and from then on always end-of-stream, whatever the peer sends later. Closing one direction leaves the opposite direction usable until it too is closed, and a stream that is opened and closed without writing still appears at the peer as an empty stream. While the connection is alive, end-of-stream is never reported before the peer has closed, dropped or reset that stream.",
 ["histories","schedules","inputs"],"all histories of writes, reads, closes and drops on both ends of a stream, in every interleaving",
 "one test half-closes one stream after a full message; the guarantee is over every position of the close relative to buffered data, credit exhaustion, reads and the opposite direction",
 [S,C],[("stream state machine","Shared::update_state in "+S),("FIN handling and reader wake-up","on_data / on_window_update in "+C),("poll_close",S)],
 [("state","Open, SendClosed, RecvClosed, Closed",S)],["end-of-stream results of reads","FIN frames on the wire"])
p("C03","No operation stays blocked once it can proceed",
 "While both connections are being driven and the transport moves bytes, no read, write, flush, close, or request for an inbound or outbound stream stays pending once what it waits for has happened: its task is woken without needing any unrelated event, and data accepted from a stream is put on the wire and flushed. Data of a stream that the endpoint has taken from the transport can be read even while the transport does not take what the endpoint itself has to send. The connection and the reading and writing halves of a stream may each be driven by a different task, and waking only the most recent waker of each is enough for the system to finish.",
 ["schedules","histories","configurations"],"all task schedules, assignments of halves and connection to tasks, transport capacities, and flush behaviours",
 "the tests poll everything from one task or rely on tokio re-polling, which hides a lost wake-up; the property quantifies over schedules in which only woken tasks run",
 [C,S,CL],[("reader/writer wakers of a stream",S),("command channel wakers","mpsc::Sender/Receiver use in "+S+" and "+C),("wakers kept by the connection","no_streams_waker, new_outbound_stream_waker in "+C),("flush before parking","Active::poll in "+C)],
 [],["quiescence of a scheduler that polls only woken tasks"])
p("C04","A sender never exceeds its credit, and can use all of it",
 "On each stream an endpoint accepts from its application, and sends, at most 256 KiB plus the sum of the credit the peer has granted so far in window updates (including one that opens the stream). A writer without credit is suspended, not failed, and continues when credit arrives, until it has used exactly what was granted. No data frame carries more than the configured split size.",
 ["inputs","histories","configurations"],"all sequences of writes, peer window updates (any amount, any time) and split sizes",
 "tests never let the peer withhold or grant arbitrary credit and never compare accepted bytes with granted credit",
 [F,S,C],[("send window bookkeeping","consume_send_window / increase_send_window_by in "+F),("write admission","poll_write in "+S),("initial credit from SYN window update","on_window_update in "+C)],
 [("send_window","bytes the peer still allows us to send",F)],["bytes accepted by poll_write","data frames on the wire","window updates delivered"])
p("C05","Credit is granted only for bytes the application has consumed",
 "The total credit an endpoint has granted on a stream, counting the initial 256 KiB, never exceeds the bytes its application has read from that stream by more than the stream's receive window, so unread data held for a stream never exceeds that window; without a round-trip measurement the window is 256 KiB. A reader that has drained its buffer and waits for more always leaves the sender at least half of that initial window as unused credit.",
 ["inputs","histories","schedules"],"all read sizes and timings, frame sizes, partially read chunks, and both read interfaces",
 "the unit test checks internal assertions of one call on random states; it does not relate granted credit to what the application really read over a history",
 [F,S,CH],[("window update computation","next_window_update in "+F),("unread byte count","Chunks::len in "+CH),("sending window updates","send_window_update in "+S)],
 [("receive_window","bytes the peer may still send",F)],["window updates on the wire","bytes returned by reads"])
p("C06","Receive windows auto-tune by the rule and within the connection limit",
 "A stream's receive window starts at 256 KiB and never shrinks; it grows, at most doubling each time, only at a window update issued less than two measured round trips after the stream's previous one (or its creation), and then it does double as far as the connection limit allows. The sum of the receive windows of all streams, counting 256 KiB for each stream that could still be opened, never exceeds the configured connection limit. What a stream had gained becomes available to other streams once it is gone.",
 ["configurations","histories","inputs"],"all connection limits, stream counts, round-trip times, consumption rates and stream lifetimes",
 "the tests set limits but never measure the windows granted; real time makes the tuning rule untestable without a virtual clock",
 [F,R,L],[("auto-tuning","next_window_update in "+F),("shared budget","accumulated_max_stream_windows, Drop for FlowController in "+F),("round-trip measurement",R)],
 [("accumulated_max_stream_windows","window granted beyond 256 KiB over all streams",C)],["window updates on the wire","virtual clock"])
p("C07","Data beyond the granted window is refused, data within it never",
 "A peer that sends more data on a stream than it has been granted is answered with a protocol-error go-away frame, and nothing of the offending frame reaches the application. A peer that stays within its credit, down to the last byte and in frames of any size, is never refused.",
 ["inputs","histories"],"all splits of data into frames around the window boundary, before and after window updates, on new and existing streams",
 "no test sends beyond a window; the boundary must hold for every window value and frame split, including data on the opening frame",
 [F,C],[("receive window enforcement","consume_receive_window in "+F),("rejection","on_data in "+C)],[],["go-away frames","bytes returned by reads"])
p("C08","No input from the peer can panic or confuse an endpoint",
 "For every byte sequence a peer sends, the endpoint neither panics nor spins, and what it does (streams surfaced, data delivered, frames answered, error reported) depends only on the bytes, not on how the transport fragments them. An unknown version or frame type, an over-long data frame, or a stream of bytes ending inside a frame ends the connection with the matching error; the end of input between frames ends it cleanly. Frames for unknown or dropped streams are ignored.",
 ["inputs","schedules"],"all byte sequences and all fragmentations of them",
 "tests only exchange frames produced by this implementation itself; hostile bytes and fragmentations are never sampled",
 [IO,H,C],[("incremental frame reader","Stream for Io in "+IO),("header decoding","decode in "+H),("frame dispatch","on_frame in "+C)],[],["API results at the connection and streams","answers on the wire","panics"])
p("C09","Protocol violations draw a go-away and have no other effect",
 "Opening a stream with an id that is zero, of the wrong parity or already in use, with a first payload larger than 256 KiB, or with credit overflowing 32 bits; raising a window beyond 32 bits; exceeding the stream limit; and answering a ping that was not sent are each answered with a go-away frame carrying an error code (1, or 2 for a data frame exceeding the stream limit). The offending frame surfaces no stream, delivers no data and changes no credit, and frames that violate none of these rules never draw such a go-away.",
 ["inputs","histories"],"all frame sequences mixing legal frames with each violation, on any stream history",
 "no test plays a misbehaving peer; every rule must hold at every point of every history",
 [C,R,F],[("violation checks","on_data, on_window_update, is_valid_remote_id in "+C),("pong matching","handle_pong in "+R)],[],["go-away frames and codes","inbound streams surfaced","bytes delivered"])
p("C10","Memory used on behalf of a peer is bounded",
 "A data frame announcing a body over 1 MiB ends the connection with a frame-too-large error before memory for the body is reserved, while bodies up to 1 MiB are not refused for their size. Any number of frames that carry no application data within the window (empty data frames, window updates, pings, pongs, resets, frames for unknown or dropped streams) leaves the memory held by the connection bounded, whether or not the transport currently accepts our answers. Application data not yet read takes memory in proportion to its size and the number of frames it came in, and that memory is given back once the data is read or the stream dropped.",
 ["inputs","histories"],"all frame floods of any length, with writable and blocked transport",
 "tests never measure memory and never flood; the bound must hold for every length of flood",
 [IO,CH,C],[("frame length limit","MAX_FRAME_BODY_LEN in "+IO),("empty chunks not stored","Chunks::push in "+CH),("reading stops while an answer is unsent","pending_read_frame in "+C)],[],["allocator","bytes taken from the transport","connection error"])
p("C11","Everything an endpoint emits is a sequence of well-formed frames",
 "The bytes an endpoint hands to the transport always form whole frames, back to back, in a valid encoding (version 0, known type, flags legal for the type, session id for pings and go-aways, non-zero id for stream frames, data length equal to the payload), whatever partial, empty-handed or delayed writes the transport makes. No frame is torn, interleaved, repeated or lost, and the frames of each stream appear in the order its operations were accepted.",
 ["inputs","schedules"],"all transport behaviours (short writes, pending at any byte, buffering until flush) and all operation histories",
 "the codec test writes to an in-memory cursor that never fails or stops short",
 [IO,H,C],[("resumable frame writer","Sink for Io in "+IO),("header encoding","encode in "+H),("single pending frame slots","pending_read_frame, pending_write_frame in "+C)],[],["raw bytes accepted by the transport"])
p("C12","Stream frames follow the life cycle of the stream",
 "The first frame of a stream from the side that opened it carries SYN and no other does (a bare reset of a never-announced stream aside), and the first frame sent back by the other side, unless it is one caused by dropping the stream, carries ACK and no other does. Each side sends at most one FIN, sends it only after its application closed or dropped the stream, sends no data after it, and sends nothing after a reset.",
 ["histories","schedules"],"all histories of write, read, close, repeated close and drop on both sides",
 "tests check that an ACK is noticed once; they never watch the wire for repeated, missing or misplaced flags",
 [S,C,CL],[("pending SYN/ACK flag","Flag, add_flag in "+S),("close and drop frames","poll_close in "+S+", on_drop_stream in "+C+", "+CL)],[],["frames on the wire"])
p("C13","Stream ids have the right parity, are never reused, and run out safely",
 "A client opens only odd ids and a server only even non-zero ids, each larger than all before, and both ends of a stream report the same id. When the ids are used up, opening fails with the corresponding error; an id is never reused and opening never panics.",
 ["histories","configurations"],"all numbers and interleavings of opened, failed and dropped streams, up to exhaustion of the id space",
 "tests open at most a few hundred streams and never look at ids; exhaustion is 2^31 opens away",
 [C,H],[("id allocation","next_stream_id in "+C),("parity","StreamId in "+H)],[("next_id","next id to hand out",C)],["Stream::id","ids on the wire"],"set the next outbound stream id, to reach exhaustion")
p("C14","The stream limit holds in both directions and slots are recycled",
 "A connection never has more live streams, inbound and outbound together, than configured. Up to the limit every open succeeds; beyond it a local open fails with a too-many-streams error and a remote open is refused with a go-away and never surfaces. A slot becomes free when the application has dropped the stream and the connection has been driven, and not before.",
 ["histories","configurations"],"all limits and all interleavings of local opens, remote opens, closes, resets and drops",
 "one test opens outbound streams only up to a random limit; mixed directions, recycling and refusal of inbound opens are not sampled",
 [C],[("limit checks","poll_new_outbound, on_data, on_window_update in "+C),("removal of dropped streams","on_drop_stream in "+C)],[("streams","live streams",C)],["results of opens","surfaced streams","go-away frames"])
p("C15","At most 256 opened streams await acknowledgement",
 "Of the streams an endpoint opened, at most 256 are open and not yet acknowledged at any time. A further open request waits, and completes as soon as one of them is acknowledged, closed by either side, reset or dropped; if the connection ends it fails instead of waiting forever.",
 ["histories","schedules"],"all orders of opening, acknowledging (by data, window update, any flag mix), closing, resetting and dropping, with the opener in the connection's task or another",
 "one test acknowledges by data with everything in one task; the other ways a slot frees, and openers in their own task, are not sampled",
 [C,S],[("backlog count","ack_backlog in "+C),("opener waker","new_outbound_stream_waker in "+C),("acknowledged state",S)],[],["results of open requests","ACK flags delivered"])
p("C16","Closing a connection flushes, says goodbye last, and completes",
 "Closing a connection sends everything its streams had accepted before (data and stream closes, in order per stream), then a normal go-away as the very last frame, then closes the transport once; it completes as long as the peer keeps driving its side, even if the peer is sending at full speed or closing too. From the moment of closing no stream operation hangs, and once closed, opening fails, no inbound stream appears and closing again succeeds.",
 ["schedules","histories","configurations"],"all moments of closing, amounts of queued and in-flight data in both directions, transport capacities and schedules",
 "the unit test closes with three queued frames over a socket that never blocks; tests close only idle connections",
 [CL,C],[("draining and flushing","Closing in "+CL),("state transitions","poll_close in "+C)],[],["frames on the wire","transport close","results of operations"])
p("C17","A failing connection ends every operation and reports why, once",
 "Whenever the transport fails or ends, or the peer goes away or sends undecodable bytes, at whatever point, the connection reports it exactly once (the transport's own error, a decode error, or a clean end) and stays closed afterwards. Every stream operation pending then or started later finishes without panic: reads hand out what had already been delivered and then end-of-stream, writes and open requests fail.",
 ["fault_sequences","crash_points","schedules"],"a failure of every kind at every transport call of a workload, under every schedule",
 "no test injects a failure",
 [C,CU,S],[("cleanup","Cleanup in "+CU),("closing all streams and waking them","drop_all_streams in "+C),("error classification","yamux/src/error.rs")],[],["results of all operations after the fault"])
p("C18","A failed or misbehaving transport is never used again",
 "Once the transport has returned an error from a write, flush or read, accepted zero bytes, or claimed to have written more than it was offered, the connection reports an error and makes no further read, write or flush on it. Up to that point the bytes written are a prefix of a valid frame sequence, and after a successful close the transport is not touched either.",
 ["fault_sequences","crash_points"],"every fault kind at every transport call, including transient faults after which the transport would work again",
 "no test injects a transport fault; transient faults are needed to see continued use",
 [IO,C,CL],[("write error propagation","poll_ready/start_send in "+IO+" and Active::poll in "+C),("poisoned writer","WriteState::Poisoned in "+IO)],[],["calls on the transport after the fault"])
p("C19","Dropping a stream informs the peer and releases everything",
 "After a stream handle is dropped and the connection driven, data it had accepted still goes out, followed by a reset if the stream was open in both directions, or a FIN if only the peer had finished, or nothing if its writing half was already closed; at the peer, reads then end after the delivered data and, after a reset, writes fail. Nothing of the stream stays in the connection, and when connection and streams are gone all memory is released.",
 ["histories","schedules"],"drops at every point of every stream history, on either side, before or after the connection",
 "one test drops one stream after one write; leaks and the other states at the moment of dropping are not observed",
 [C,S,T],[("drop detection","TaggedStream in "+T),("drop frames","on_drop_stream in "+C)],[],["frames on the wire","results at the peer","allocator"])
p("C20","Pings are answered faithfully and round trips measured one at a time",
 "Every ping received on the session is answered with exactly one pong carrying the same value, in order, also while streams are busy. An endpoint has at most one ping of its own outstanding and sends the next no sooner than 10 seconds after the previous answer.",
 ["inputs","schedules"],"all ping values, counts and positions in traffic, and blocked or slow transports",
 "no test sends a ping explicitly or looks at the pongs",
 [C,R],[("pong","on_ping in "+C),("ping pacing","next_ping, handle_pong in "+R)],[],["ping frames on the wire","virtual clock"])
p("C21","Streams do not hold each other up",
 "A stream whose reader has stopped, or whose writer is out of credit, does not prevent other streams, new streams or pings from making progress. While a stream has data waiting, no other stream gets more than a few frames (at most 8) onto the wire before it.",
 ["schedules","histories","configurations"],"all sets of stalled, busy and light streams, and all transport speeds",
 "tests use symmetric echo streams, where neither stalling nor starvation can be seen",
 [C,S],[("per-stream flow control",F),("round-robin over stream channels","stream_receivers in "+C),("split size",S)],[],["completion of light streams","order of frames on the wire"])
p("C22","Unsent data is bounded: writers feel a slow transport",
 "When the transport does not accept bytes, a stream accepts fewer than 32 frames of data beyond those already on the wire and then suspends the writer, so unsent data per stream is less than 32 times the split size; the connection itself queues at most a few frames (at most 4). When the transport moves again the suspended writers continue.",
 ["schedules","histories","configurations"],"all numbers of streams, write patterns, split sizes and moments of blocking",
 "tests never block the transport while writing without bound",
 [S,C],[("bounded command channel","mpsc::channel in "+C),("single pending write frame","pending_write_frame in "+C)],[],["bytes accepted by writes versus bytes on the wire"])
p("C23","Streams work from other threads, free of races and undefined behaviour",
 "Streams can be moved to, and their halves used from, threads other than the connection's: integrity, completion, credit and closing hold as in a single thread, and no execution has a data race, undefined behaviour, deadlock or leak.",
 ["schedules"],"all thread interleavings",
 "tests run streams on a multi-threaded runtime a few times without any race detection",
 [S,C,R],[("shared stream state under a lock","Shared in "+S),("shared round-trip state",R)],[],["ThreadSanitizer and Miri reports","results at the API"])
p("C24","Data delivered before the end of a connection follows read_after_close",
 "By default, bytes delivered to a stream before its connection was closed, failed or dropped can still be read completely afterwards, followed by end-of-stream and never by an error. With read_after_close disabled, reads report end-of-stream at once when the connection has ended, and while it has not, the setting makes no difference.",
 ["configurations","histories","fault_sequences"],"both settings, all ways the connection can end, and all amounts of buffered data",
 "tests vary the setting but never read after a close",
 [S,C,CL,CU],[("read_after_close check","poll_read/poll_next in "+S),("closing streams","drop_all_streams in "+C)],[],["results of reads after the end"])
p("C25","Stream state queries tell the truth",
 "With no frames in flight, a stream reports closed exactly when both directions have ended, the peer has reset it, or the connection has ended; write-closed exactly when its own writing half is closed but the peer's is not; and awaiting acknowledgement exactly while it is open in both directions and no acknowledgement has been received (if opened locally) or sent (if opened by the peer).",
 ["histories"],"all histories of opens, writes, reads, closes, resets and acknowledgements, queried at every quiescent point",
 "tests query at three fixed points of one history",
 [S,C],[("state machine","Shared::update_state, is_closed, is_write_closed, is_pending_ack in "+S)],[],["query results against a model fed from wire and API events"])
p("C26","An idle endpoint sleeps, and sends no frame without a purpose",
 "When no operation can proceed and no bytes arrive, an endpoint puts nothing on the wire and wakes no task over and over: after finitely many polls everything sleeps until a real event. A window update other than the announcement of a stream grants at least 128 KiB, and data frames without payload are sent only for an empty write, a FIN or a reset.",
 ["schedules","histories","configurations"],"all points of all histories at which endpoints, readers, writers, openers and closers wait, including for a transport that is full, slow or flushes late",
 "a task that keeps waking itself still passes every test, it only burns a processor; nothing in the tests counts polls or frames",
 [C,S,F,CL],[("parking of the connection","Active::poll in "+C),("update threshold","next_window_update in "+F),("parking while closing",CL)],[],["polls without any event between them","frames on the wire"])
p("C27","Every permitted configuration is accepted and takes effect as documented",
 "Without settings a connection allows 512 streams, 1 GiB of receive windows, reading after close, and data frames of up to 16 KiB. A setting is refused (by panic) exactly if the receive window limit is then below 256 KiB times the number of streams; otherwise it is accepted, in any order, the last one counts, and it is in force on every stream of the connection, however extreme the values: a write goes out in one frame of up to the split size, streams and windows reach their limits and not more.",
 ["configurations","inputs"],"all sequences of settings with arbitrary values, followed by any use of the connection",
 "the tests use a few moderate configurations; the products and sums of limits at the edge of the number range, and the order of settings, are never exercised",
 [L,F,C,S],[("setters and defaults","Config in "+L),("growth of windows under the limit","next_window_update in "+F),("slots","poll_new_outbound, on_data, on_window_update in "+C),("split",'poll_write in '+S)],[],["panics of setters","streams accepted and refused","window updates","frame sizes","reads after the end"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
