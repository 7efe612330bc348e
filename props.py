TRUSTED = [
    "vx, the extraction tool (tool/): syntactic rewrites listed per function under functions_under_contract.rewrites; the rules are documented in DESIGN.md",
    "Verus 0.2026.09.13, its encoding and Z3",
    "specs/prelude.rs: Pin modelled as a transparent wrapper, core::task::Poll/Context re-declared, Waker reduced to its identity",
]
ASSUMPTIONS = [
    "user code (child futures, streams, closures) satisfies the contracts of Future/Stream/FnMut as written in specs/prelude.rs: what it will yield is a fixed (prophesied) sequence for the execution considered",
    "closures given to an adapter return fresh futures/streams (not yet completed)",
    "pinning is not checked here (Pin::new_unchecked, pin-project-lite projections are taken as plain &mut projections); unsafe code in the extracted functions is limited to projections",
    "a rest() sequence is finite: unbounded streams are covered through every finite prefix (relational contracts) only where a unit says so",
    "derive-generated impls, Debug impls, Sink delegation of stream adapters and constructors without logic are not under contract",
]
NOTES = "Every check extracts its functions from /repo's working tree on each run (vx), discharges all obligations with Verus, and runs a bounded replay search over the real crates that supplies failing inputs; see DESIGN.md."
LEVEL_NOTE = "Unbounded proof over all inputs, schedules of Pending/Ready and iterations for every function listed in the evidence; assumes the contracts of user-supplied children and the extraction tool; constructors/Debug impls are outside. The replay search is bounded and only supplies failing inputs."
ALL_STREAM = ["map", "filter", "filter_map", "then", "enumerate", "scan", "take", "skip", "take_while", "skip_while", "take_until", "fuse", "chunks",
              "ready_chunks", "chain", "zip", "flatten", "peek", "once", "unfold", "try_filters", "fut_flatten", "fut_try_flatten", "try_chunks", "into_stream", "try_flatten", "sources", "catch_unwind"]
ALL_FUT = ["collect", "unzip", "fold", "count", "any", "all", "for_each", "next", "fut_map", "fut_fuse", "fut_basic", "maybe_done", "try_maybe_done",
           "join", "try_join", "join_all", "try_join_all", "fut_select", "fut_select_all", "fut_select_ok", "try_consume", "concat", "either"]
ALL_IO = ["io_take", "io_chain", "io_reads", "io_lines", "io_bufread", "io_asyncread", "io_misc", "io_write", "io_copy", "io_copyab", "io_split", "io_bufwrite", "io_sinkread", "io_either"]
ALL_MERGE = ["stream_select", "stream_select_all", "futures_ordered", "buffered", "buffer_unordered", "fe_concurrent", "tfe_concurrent", "try_buffered", "flatten_unordered", "tfl_unordered"]
ALL_SINK = ["sink_send", "sink_sendall", "sink_forward", "sink_buffer", "sink_with", "sink_flatmap", "sink_misc", "sink_maperr", "sink_split", "sink_tryforward", "sink_flatten"]
FAM_STREAM = ["elem", "prefix", "group", "seqcomb", "peek", "source", "trystream", "trygroup"]

prop("C01", "Element-wise stream adapters transform every item, in order, exactly once",
     "A stream passed through map, inspect, enumerate, filter, filter_map, then or scan yields exactly the items obtained by applying the user's closure to each source item once, in source order, dropping only what the closure rejects, and ends exactly when the source ends (scan: or when the closure returns None). No item is lost, duplicated or reordered, whatever the pattern of Pending results of the source and of the futures the closure returns.",
     ["inputs", "schedules", "programs"], "for every source sequence, every closure, every placement of Pending in source and closure futures, and every number of polls",
     "tests feed a few short, mostly always-ready streams; they do not place Pending between taking an item and resolving its future for every position",
     [SM + f for f in ("map.rs", "enumerate.rs", "filter.rs", "filter_map.rs", "then.rs", "scan.rs")],
     [("the item in flight is parked next to its future and only released when the future resolves", SM + "filter.rs"), ("state is put back before the item is returned", SM + "scan.rs")],
     ["map", "filter", "filter_map", "then", "enumerate", "scan", "fns"], replay=["elem"])

prop("C02", "Prefix and suffix adapters cut the stream at exactly the specified point",
     "take, skip, take_while, skip_while, take_until and fuse yield exactly the prefix or suffix their argument selects: the first n items, all but the first n, the items before the first rejected one, those from the first rejected one on, the items before the stop future completes, all items. Once such an adapter has ended it stays ended where documented, and it takes no more from its source than needed.",
     ["inputs", "schedules", "programs"], "for every source, limit, predicate, stop future and placement of Pending",
     "tests use fixed limits and ready futures; off-by-one errors at a Pending boundary or an item in flight when the cut is decided are not sampled",
     [SM + f for f in ("take.rs", "skip.rs", "take_while.rs", "skip_while.rs", "take_until.rs", "fuse.rs")],
     [("remaining/done flags updated together with the item taken", SM + "take.rs"), ("stop future polled before the stream", SM + "take_until.rs")],
     ["take", "skip", "take_while", "skip_while", "take_until", "fuse"], replay=["prefix"])

prop("C03", "Chunking adapters partition the stream without losing or reordering items",
     "chunks, ready_chunks, try_chunks and try_ready_chunks yield non-empty groups of at most the given capacity whose concatenation is the source; a group is shorter than the capacity only at the end, at an error (which carries the items gathered so far), or, for the ready variants, when the source is pending. Nothing gathered is lost when the source is pending, fails or ends.",
     ["inputs", "schedules"], "for every source, capacity and placement of Pending and errors",
     "tests use one or two capacities on ready streams",
     [SM + f for f in ("chunks.rs", "ready_chunks.rs")] + [U + "stream/try_stream/try_chunks.rs", U + "stream/try_stream/try_ready_chunks.rs"],
     [("items are kept in the buffer across polls and handed over whole", SM + "chunks.rs")],
     ["chunks", "ready_chunks", "try_chunks"], replay=["group", "trygroup"])

prop("C04", "Sequencing adapters concatenate, pair, flatten or repeat streams exactly",
     "chain yields all of the first stream then all of the second; zip pairs the i-th items and ends with the shorter stream; flatten and flat_map yield the concatenation of the inner streams in order; cycle repeats its stream forever. No item is lost or reordered, and no inner stream is started before its predecessor ended, whatever is pending.",
     ["inputs", "schedules", "programs"], "for every pair or nesting of source streams and placement of Pending in each",
     "tests use ready iterators; an item parked while the other side is pending is rarely sampled",
     [SM + f for f in ("chain.rs", "zip.rs", "flatten.rs", "cycle.rs")],
     [("queued items held while the other side is pending", SM + "zip.rs"), ("inner stream kept until it returns None", SM + "flatten.rs")],
     ["chain", "zip", "flatten", "sources"], replay=["seqcomb"])

prop("C05", "Peeking never changes what a peekable stream yields",
     "For any interleaving of peek, peek_mut, next_if, next_if_eq and next on a peekable stream, each peek shows the item the next call to next returns, next_if/next_if_eq take that item exactly when it matches and otherwise leave it in place, and the items taken are the source's items in order.",
     ["histories", "inputs", "schedules"], "for every sequence of operations and every placement of Pending",
     "tests run a handful of fixed operation sequences on ready streams",
     [SM + "peek.rs"], [("one-item buffer filled by peek and drained by next", SM + "peek.rs")],
     ["peek"], replay=["peek"])

prop("C06", "Stream constructors yield exactly the specified sequence",
     "once, iter, empty, unfold, try_unfold, repeat, repeat_with, poll_fn and poll_immediate produce exactly the sequence given by their argument: each state of an unfold is used once and in order, the stream ends when (and only when) the generator ends or fails, and nothing is produced after the end.",
     ["inputs", "schedules", "programs"], "for every generator and placement of Pending in its futures",
     "tests run short generators with ready futures",
     [U + "stream/" + f for f in ("once.rs", "iter.rs", "empty.rs", "unfold.rs", "repeat.rs", "repeat_with.rs", "poll_immediate.rs")] + [U + "unfold_state.rs", U + "stream/try_stream/try_unfold.rs"],
     [("state moves between Value, Future and Empty", U + "unfold_state.rs")],
     ["once", "unfold_state", "unfold", "sources", "try_flatten"], replay=["source", "trystream"])

prop("C07", "Stream consumers see every item once and return the documented result",
     "collect, unzip, concat, count, fold, any, all, for_each, next, into_future and select_next_some process the source's items in order, each exactly once, and complete with the documented result as soon as it is determined: any and all stop at the first deciding item, the others at the end of the stream.",
     ["inputs", "schedules", "programs"], "for every source, closure and placement of Pending",
     "tests use ready streams and fixed closures",
     [SM + f for f in ("collect.rs", "unzip.rs", "fold.rs", "count.rs", "any.rs", "all.rs", "for_each.rs", "next.rs", "into_future.rs", "concat.rs", "select_next_some.rs")],
     [("accumulator survives a pending poll", SM + "fold.rs")],
     ["collect", "unzip", "fold", "count", "any", "all", "for_each", "next", "concat"], replay=["consume"])

prop("C08", "Try-stream adapters apply to the Ok items and pass errors through in place",
     "map_ok, map_err, err_into, inspect_ok/err, and_then, or_else, try_filter, try_filter_map, try_take_while, try_skip_while and try_flatten apply their closure exactly to the items of the side they name, in order and once each, forward every other item unchanged at its position, and forward errors of the closure's futures in place of the item.",
     ["inputs", "schedules", "programs"], "for every mix of Ok and Err items, closure results and placement of Pending",
     "tests use few short sequences; errors arriving while a future is in flight or after a failed predicate are not sampled",
     [U + "stream/try_stream/" + f for f in ("and_then.rs", "or_else.rs", "try_filter.rs", "try_filter_map.rs", "try_take_while.rs", "try_skip_while.rs", "try_flatten.rs", "into_stream.rs")],
     [("item in flight released with its future", U + "stream/try_stream/try_take_while.rs")],
     ["trys", "try_filters", "try_flatten", "into_stream", "fns"], replay=["trystream"])

prop("C09", "Try-stream consumers stop at the first error and return it",
     "try_next, try_collect, try_concat, try_fold, try_for_each, try_any and try_all process the Ok items in order, each once, and complete with the first error met (from the stream or the closure) without consuming anything beyond it; without an error they complete with the documented result.",
     ["inputs", "schedules", "programs"], "for every mix of Ok and Err items, closure results and placement of Pending",
     "tests place at most one error at one position",
     [U + "stream/try_stream/" + f for f in ("try_next.rs", "try_collect.rs", "try_concat.rs", "try_all.rs", "try_any.rs")] + [SM + "try_fold.rs", SM + "try_for_each.rs"],
     [("error returned immediately by the ? on the polled item", U + "stream/try_stream/try_collect.rs")],
     ["trys", "try_consume", "concat"], replay=["tryconsume"])

prop("C10", "size_hint bounds are always sound",
     "At every point of a stream's life the bounds returned by size_hint enclose the number of items the stream will still yield: lower <= remaining, and remaining <= upper when an upper bound is given. This holds for every stream adapter and constructor, including while an item is in flight.",
     ["inputs", "schedules", "histories"], "for every source with sound bounds, every point in its consumption, every placement of Pending",
     "tests compare size_hint at the start of a few streams, never with an item in flight or at every step",
     [SM + f for f in ("filter.rs", "scan.rs", "take_until.rs", "chunks.rs", "zip.rs", "chain.rs", "fuse.rs", "peek.rs")] + [U + "stream/poll_immediate.rs"],
     [("every size_hint adds the items it holds itself", SM + "chunks.rs")],
     ALL_STREAM + ["buffered", "buffer_unordered", "futures_ordered", "mpsc_unbounded", "mpsc_bounded"], tags=["size"], replay=FAM_STREAM + ["merge", "unordered", "buffered", "mpsc"])

prop("C11", "Finished futures and streams are not polled again; is_terminated is accurate",
     "No combinator polls a child future after it completed or a child stream after it returned None unless the child reports that this is safe. is_terminated never reports true while an output or item is still to come (a future that consumes a stream may report true once that stream is exhausted, and an empty OptionFuture counts as terminated), and never reports false when polling again would poll a finished child. A future that has completed reports true, except those that only pass on the answer of the stream they consume.",
     ["inputs", "schedules", "histories"], "for every combinator, every placement of Pending and every point of the execution",
     "children in tests tolerate extra polls, so a repeated poll goes unnoticed",
     [SM + f for f in ("fuse.rs", "take_until.rs", "scan.rs", "chunks.rs", "zip.rs")] + [U + "future/future/fuse.rs", U + "future/maybe_done.rs", U + "future/select.rs"],
     [("finished children are replaced by an empty state", U + "future/maybe_done.rs")],
     ALL_STREAM + ALL_FUT + ALL_SINK + ALL_MERGE + ["mpsc_unbounded", "mpsc_bounded", "mpsc_recv", "oneshot", "mutex", "shared", "abortable", "remote_handle"], tags=["term"], replay=FAM_STREAM + ["consume", "tryconsume", "futcomb", "join", "select", "sink", "merge", "unordered", "buffered", "oneshot", "mpsc", "mutex", "shared", "abort", "remote"])

prop("C12", "Pending is returned only with the current task registered for wake-up",
     "Whenever a combinator returns Pending, the waker of that very poll has been handed to a child (or is scheduled to be woken) such that every event that allows progress wakes the task. This holds also when the task's waker changed since the previous poll.",
     ["schedules", "histories", "programs"], "for every combinator, every order in which children become ready, spurious polls and waker changes",
     "executors in tests poll everything repeatedly or complete immediately; a lost wake-up needs a specific order of events",
     [SM + f for f in ("zip.rs", "filter.rs", "take_until.rs", "ready_chunks.rs")] + [U + "future/join_all.rs", U + "future/select.rs"],
     [("a child is polled with the current context on every path to Pending", U + "future/join.rs")],
     ALL_STREAM + ALL_FUT + ALL_IO + ALL_SINK + ALL_MERGE + ["mpsc_unbounded", "mpsc_bounded", "mpsc_recv", "oneshot", "mutex", "bilock", "shared", "abortable", "remote_handle"], tags=["wake"], replay=FAM_STREAM + ["consume", "tryconsume", "futcomb", "join", "select", "ioread", "iowrite", "sink", "merge", "unordered", "buffered", "oneshot", "mpsc", "mutex", "bilock", "shared", "abort", "remote"])

prop("C13", "Future combinators compose outputs exactly and run closures once",
     "map, then, flatten, inspect, fuse, into_stream, flatten_stream, catch-free conversions, map_ok, map_err, and_then, or_else, try_flatten, unwrap_or_else, OptionFuture, maybe_done, try_maybe_done, poll_immediate, lazy and Either complete with exactly the documented function of their children's outputs, call each closure at most once and only when its input is available, and complete in the poll in which the deciding child completes.",
     ["inputs", "schedules", "programs"], "for every child future, closure and placement of Pending",
     "tests use ready futures; state kept across Pending is rarely exercised",
     [U + "future/future/map.rs", U + "future/future/flatten.rs", U + "future/future/fuse.rs", U + "future/maybe_done.rs", U + "future/try_maybe_done.rs", U + "future/option.rs", U + "future/poll_immediate.rs", U + "future/try_future/try_flatten.rs", U + "future/try_future/try_flatten_err.rs", U + "future/ready.rs", U + "future/either.rs"],
     [("two-state machines replaced atomically when the first future completes", U + "future/future/flatten.rs")],
     ["fut_map", "fut_flatten", "fut_fuse", "fut_basic", "maybe_done", "try_maybe_done", "fut_try_flatten", "either", "fns"], replay=["futcomb"])

prop("C14", "Join completes exactly when all children have, with all outputs in order",
     "join, join_all and join! poll every incomplete child and complete exactly when the last child completes, with every output at its child's position. try_join, try_join_all and try_join! complete with the first error as soon as a child fails, otherwise with all values in position.",
     ["inputs", "schedules"], "for every number of children, completion order and placement of failures",
     "tests join two or three ready futures",
     [U + "future/join.rs", U + "future/join_all.rs", U + "future/try_join.rs", U + "future/try_join_all.rs", U + "future/maybe_done.rs", "futures-macro/src/join.rs"],
     [("each child is polled until done and its output kept", U + "future/join_all.rs")],
     ["join", "try_join", "join_all", "try_join_all", "maybe_done", "try_maybe_done"], replay=["join"], assumptions=[
         "join! and try_join! (code generated by futures-macro) only by the bounded replay: two and three futures, every completion order, outcome and placement of up to two Pending each"])

prop("C15", "Select returns a completed child and hands back every other one intact",
     "select, try_select, select_all, select_ok, select! and select_biased! complete as soon as some child has (select_ok: succeeded), return that child's output and position, and hand back every other child unpolled-after and un-dropped so that its own output can still be obtained; select_ok fails only when every child has failed.",
     ["inputs", "schedules"], "for every number of children, completion order and placement of failures",
     "tests select between two futures with one ready",
     [U + "future/select.rs", U + "future/try_select.rs", U + "future/select_all.rs", U + "future/select_ok.rs", "futures-macro/src/select.rs"],
     [("the winner is removed by index, the rest returned", U + "future/select_all.rs")],
     ["fut_select", "fut_select_all", "fut_select_ok"], replay=["select"], assumptions=[
         "select! and select_biased! (code generated by futures-macro) only by the bounded replay: up to three branches, with complete and default"])

IO = U + "io/"
prop("C16", "I/O readers deliver exactly the source's bytes, in order",
     "Reading through chain, take, BufReader, IntoAsyncRead, lines, and the read, read_exact, read_to_end, read_to_string, read_until and read_line futures delivers exactly the bytes of the underlying source, in order, none lost, duplicated or invented: across any split of the data into short reads, any Pending and any buffer size. read_exact succeeds only with the buffer full, take never passes its limit, a line or delimited record ends at the first delimiter and not elsewhere, end of data is reported only at the end, a failed line never leaks into a later one, a String is never left holding invalid UTF-8, and seeking a BufReader moves it to exactly the requested position, whatever is buffered.",
     ["inputs", "schedules", "histories"], "for every byte content, every way the source splits it into reads, every buffer capacity and placement of Pending",
     "tests use a few fixed splits; delimiters, multi-byte characters and limits falling on a chunk boundary with Pending in between are not enumerated",
     [IO + f for f in ("chain.rs", "take.rs", "buf_reader.rs", "lines.rs", "read.rs", "read_exact.rs", "read_to_end.rs", "read_to_string.rs", "read_until.rs", "read_line.rs", "empty.rs", "seek.rs")] + [U + "stream/try_stream/into_async_read.rs"],
     [("bytes exposed by poll_fill_buf are consumed exactly as far as they were copied out", IO + "read_until.rs"), ("position and fill level of the buffer move together", IO + "buf_reader.rs"), ("limit reduced by exactly the bytes delivered", IO + "take.rs")],
     ["io_take", "io_chain", "io_reads", "io_lines", "io_bufread", "io_asyncread", "io_misc", "io_either"], tags=["core", "term", "wake"], replay=["ioread"])

prop("C17", "I/O writers deliver every accepted byte once, in order, and really flush",
     "Writing through BufWriter, LineWriter, IntoSink, write_all, copy, copy_buf and copy_buf_abortable delivers exactly the accepted bytes to the destination, in order and once each, whatever short writes, Pending results and errors occur; a reported byte count is the number of bytes accepted. flush, close and copy complete only when everything accepted so far has reached the destination and the destination itself has flushed (closed); write_all completes only when the whole buffer was accepted and fails rather than loops when the destination accepts nothing; LineWriter passes complete lines on, and BufWriter seeks only with everything accepted so far written.",
     ["inputs", "schedules", "histories", "faults"], "for every sequence of writes, flushes and closes, every acceptance pattern of the destination, every buffer capacity",
     "tests script a few short writes; a partial flush interrupted by Pending or an error followed by more writes is not enumerated",
     [IO + f for f in ("buf_writer.rs", "line_writer.rs", "into_sink.rs", "write_all.rs", "copy_buf.rs", "flush.rs", "close.rs", "write.rs", "sink.rs")],
     [("bytes written so far are remembered across Pending and removed from the buffer once", IO + "buf_writer.rs"), ("offset into the item survives Pending", IO + "into_sink.rs")],
     ["io_write", "io_copy", "io_copyab", "io_split", "io_bufwrite", "io_sinkread", "io_misc", "io_either"], tags=["core", "term", "wake"], replay=["iowrite"])

prop("C18", "Sink adapters deliver each item once, in order, and respect readiness and flush",
     "Items given to a sink through send, feed, send_all, forward, try_forward, buffer, with, with_flat_map, fanout, unfold, sink_map_err, sink_err_into, flatten_sink or the sink half of split reach the underlying sink exactly once and in order (transformed exactly as documented), an item is passed on only after the underlying sink reported it is ready for it, buffer never holds more than its capacity and accepts items while it has room, send, send_all, flush and close complete only when everything accepted has been flushed to (all) the underlying sinks, close, forward and try_forward only after the underlying sink closed, send_all, forward and try_forward wait for more input only with everything sent so far flushed (or while the sink itself is busy), and the first error is reported unchanged.",
     ["inputs", "schedules", "histories", "faults"], "for every sequence of operations, every placement of not-ready, Pending and errors in the underlying sinks, closure futures and streams",
     "tests use sinks that are always ready or block once; an item parked while the next stage is not ready, followed by flush or close, is not enumerated",
     [U + "sink/" + f for f in ("send.rs", "feed.rs", "send_all.rs", "buffer.rs", "with.rs", "with_flat_map.rs", "fanout.rs", "unfold.rs", "map_err.rs", "flush.rs", "close.rs", "drain.rs", "err_into.rs")] + [SM + "forward.rs", SM + "split.rs", U + "stream/try_stream/try_forward.rs", U + "future/future/flatten.rs", U + "future/try_future/try_flatten.rs"],
     [("an item is parked until the sink is ready and parked items go first", U + "sink/buffer.rs"), ("item in flight handed over before flush and close", U + "sink/with.rs")],
     ALL_SINK, tags=["core", "term", "wake"], replay=["sink"])

prop("C19", "Merging streams interleaves them without losing, repeating or reordering items",
     "select, select_with_strategy, select_all, stream_select!, flatten_unordered, flat_map_unordered and try_flatten_unordered yield every item of every input stream exactly once, the items of each input in that input's order, and end exactly when every input has ended. An input that is ready is never left out while the merged stream waits, select serves its two inputs alternately, select_with_strategy asks the side its strategy names first and carries the strategy's state, streams added to select_all take part, flatten_unordered never drives more inner streams than its limit, and errors are passed on like items.",
     ["inputs", "schedules", "histories"], "for every number and content of inputs, every order of readiness, every strategy and limit",
     "tests merge a few always-ready streams; the end of one input while another is pending, and limits being reached with inner streams pending, are not enumerated",
     [U + "stream/" + f for f in ("select.rs", "select_with_strategy.rs", "select_all.rs")] + [SM + "flatten_unordered.rs", U + "stream/try_stream/try_flatten_unordered.rs", "futures-macro/src/stream_select.rs"],
     [("each side's end is remembered and the other side still served", U + "stream/select_with_strategy.rs"), ("a stream that yielded is put back", U + "stream/select_all.rs"), ("streams to poll are tracked in flags shared with the wakers", SM + "flatten_unordered.rs")],
     ["stream_select", "stream_select_all", "next", "flatten_unordered", "tfl_unordered"], tags=["core", "term", "wake"], replay=["merge"], assumptions=[
         "flatten_unordered: every operation on the state word is atomic and they happen in one total order (SeqCst); the task is polled by one thread at a time; FuturesUnordered by contract (C21)",
         "stream_select! (code generated by futures-macro) only by the bounded replay: two and three streams"])

prop("C20", "Concurrent adapters run each future once, within the limit, and lose no result",
     "buffered and try_buffered yield the outputs of the source's futures in source order, buffer_unordered and try_buffer_unordered in some order, each exactly once; for_each_concurrent and try_for_each_concurrent hand each item to the closure once and in order and complete only when all futures have (or one failed, whose error is returned and the rest dropped); FuturesOrdered yields outputs in queue order (push_back behind, push_front before everything queued). At no time are more futures in flight (for the buffered adapters: taken but not yet yielded) than the limit, and while there is room the source is asked for more.",
     ["inputs", "schedules", "histories"], "for every source, every limit, every completion order and placement of Pending and errors",
     "tests use a couple of futures and one limit; completion orders combined with source pauses and errors are not enumerated",
     [SM + f for f in ("buffered.rs", "buffer_unordered.rs", "for_each_concurrent.rs", "try_for_each_concurrent.rs")] + [U + "stream/try_stream/try_buffered.rs", U + "stream/try_stream/try_buffer_unordered.rs", U + "stream/futures_ordered.rs"],
     [("in-flight count compared with the limit before taking the next future", SM + "buffered.rs"), ("outputs parked by index until their turn", U + "stream/futures_ordered.rs")],
     ["futures_ordered", "buffered", "buffer_unordered", "fe_concurrent", "tfe_concurrent", "try_buffered"], tags=["core", "term", "wake"], replay=["buffered"])

CONC_ASSUME = [
    "rely-guarantee: each operation on a shared word, cell or queue takes the calling thread's ghost token; its assumed contract lists the values other threads can leave there (rely) and the proof obliges this thread to perform only the transitions of the protocol (guarantee). That the rely follows from the guarantee over any number of threads is proved as machine lemmas in the unit; the correspondence between token contract and machine is by construction, not checked",
    "operations the code performs with SeqCst are in one total order; weaker orderings are required by contract exactly where the protocol passes data on",
    "std::sync::Mutex is never poisoned; Rust runs destructors as specified (drop of a handle runs the Drop impl under contract)",
]
CONC_NOTE = "Unbounded proof over all schedules by per-thread contracts (rely-guarantee with ghost tokens) for every function listed in the evidence, with the protocol of each shared object assumed as the contract of its operations; replay search with injected interleavings and threads is bounded and supplies failing inputs."
FU = U + "stream/futures_unordered/"
prop("C21", "FuturesUnordered polls every woken future and hands out each output once",
     "A FuturesUnordered holds exactly the futures pushed and not yet completed, cleared or taken out: len, is_empty, size_hint and the iterators show exactly these, also while other threads push through a shared reference. Each future is polled only after it was pushed or woken, at most once per wake-up, and poll_next hands out the output of each exactly once, dropping the future before it returns; None is returned only without futures, and Pending only while there are some. A pending poll_next has either woken its task again or has registered the task's waker and found the ready-to-run queue empty afterwards: a wake-up of any future by any thread appends its task to that queue once, before it wakes the registered waker, unless it is queued already. One poll_next polls at most as many futures as the set held and yields to other tasks afterwards. Wakers that outlive their future or the set are harmless.",
     ["schedules", "histories"], "for every number of futures and every interleaving of pushes, wake-ups from any thread, polls, completions, panics, iteration and drop",
     "tests use a few futures on one thread; wake-ups during a poll, after completion, or half way through enqueueing are not sampled",
     [FU + f for f in ("mod.rs", "task.rs", "ready_to_run_queue.rs", "iter.rs")],
     [("queued flag reset before the poll, set by the first wake-up, which appends the task", FU + "mod.rs"), ("swap of the head, then link of the previous node; a half-done append is seen as Inconsistent", FU + "ready_to_run_queue.rs"), ("length kept in the head node; a new head is linked after the swap and readers wait for the link", FU + "mod.rs"), ("a completed task that is still queued is left to the queue", FU + "mod.rs")],
     ["fu_queue", "futures_unordered"], tags=["core", "term", "wake"], replay=["unordered"], assumptions=CONC_ASSUME + [
         "the two units meet at the contract of the queue (enqueue, dequeue): fu_queue proves the queue's operations, futures_unordered assumes them; that dequeue only returns tasks of the list or released ones, each with its flag set, is proved over the per-task machine (machine_* lemmas of futures_unordered) whose steps the token contracts allow",
         "fewer than usize::MAX futures; implicit drops of Arcs other than those written out in the code are not modelled; a panic of a future is covered by verifying the guard (Bomb::drop) as a function"],
     note=CONC_NOTE)

CH = "futures-channel/src/"
prop("C22", "AtomicWaker never loses a wake-up",
     "If a task registers its waker with AtomicWaker::register and then checks for an event, and another thread makes the event happen and then calls wake (or take and wakes the result), the task sees the event or is woken, whatever the interleaving, including calls made while another register, wake or take is in progress; a wake-up wakes the most recently registered waker, at most once, everything done before wake is visible to the woken task, the waker slot is only touched by one thread at a time, and take leaves nothing behind.",
     ["schedules", "histories"], "for every number of threads and every interleaving of register, wake and take",
     "a test runs a few interleavings; the window between taking the slot and giving it back is a few instructions",
     ["futures-core/src/task/__internal/atomic_waker.rs"],
     [("three-state word guarding the slot; a wake during registration is left as a flag for the registering thread", "futures-core/src/task/__internal/atomic_waker.rs")],
     ["atomic_waker"], replay=["awaker"], assumptions=CONC_ASSUME, note=CONC_NOTE)

prop("C23", "A oneshot channel delivers its value or its cancellation, and wakes both ends",
     "A value sent on a oneshot channel is either received exactly once or returned to the sender (if the receiver was closed or dropped first) or dropped with the channel, never lost while both report success; the receiver completes with the value, or with Canceled exactly if the sender is gone (or the receiver closed itself) without a value; it is Pending only while the outcome is open, and is woken when it is decided; is_canceled and poll_canceled report exactly whether the receiver is gone, and a task waiting for cancellation is woken by it.",
     ["schedules", "histories"], "for every interleaving of the operations of the two halves on any threads",
     "tests run the operations in sequence or with sleeps; the races between checking for completion and registering a waker are not enumerated",
     [CH + "oneshot.rs", CH + "lock.rs"],
     [("completion flag checked again after the waker was stored", CH + "oneshot.rs"), ("try-lock slots for the value and the two wakers", CH + "lock.rs")],
     ["chan_lock", "oneshot"], replay=["oneshot"], assumptions=CONC_ASSUME, note=CONC_NOTE)

prop("C24", "mpsc channels deliver each message once, in order, and wake the other side",
     "Every message accepted by an mpsc channel (bounded or unbounded, by any sender handle and any interface) is received exactly once or dropped with the receiver, messages of one sender in the order sent; the stream ends exactly when the channel is closed and drained. Sending fails only with the message handed back, as disconnected exactly if the channel was closed, as full only while this sender is waiting for room; a sender whose message exceeds the buffer waits until the receiver has taken a message, so that at most the buffer plus one message per sender is queued. A receiver or sender that is Pending is woken when a message, room or the end of the channel arrives. Dropping the last sender closes the channel, dropping or closing the receiver releases every waiting sender.",
     ["schedules", "histories", "inputs"], "for every number of senders, every buffer size and every interleaving of sends, receives, closes, clones and drops",
     "tests run a few senders on a pool; the windows between counting a message, queueing it and waking the receiver are not enumerated",
     [CH + "mpsc/mod.rs", CH + "mpsc/queue.rs", CH + "mpsc/sink_impl.rs"],
     [("messages are counted before they are queued and uncounted after they are taken", CH + "mpsc/mod.rs"), ("a sender parks before its message is queued; the receiver unparks one sender per message", CH + "mpsc/mod.rs"), ("swap the head, then link the previous node", CH + "mpsc/queue.rs")],
     ["mpsc_queue", "mpsc_unbounded", "mpsc_bounded", "mpsc_recv"], tags=["core", "term", "wake", "size"], replay=["mpsc"], assumptions=CONC_ASSUME, note=CONC_NOTE)

LK = "futures-util/src/lock/"
prop("C25", "Mutex gives exclusive access and never strands a waiting task",
     "At most one guard of a futures::lock::Mutex exists at any time (however obtained: lock, lock_owned, try_lock, mapped), the data is only accessible through it, and each holder sees everything the previous holders wrote. try_lock and a poll of a lock future succeed exactly if the mutex is free at that moment. A pending lock future has the waker of its latest poll registered; whenever the mutex is free and futures wait for it, at least one of them has been woken and has not acted on it yet: releasing a guard wakes a waiter, and a woken future that is dropped without taking the lock passes the wake-up on. Dropping futures and guards leaves nothing behind.",
     ["schedules", "histories"], "for every number of tasks and every interleaving of lock, poll, unlock and drop",
     "tests run a few tasks on a pool; lost wake-ups between unlocking and registering, or after a cancelled waiter, need specific interleavings",
     [LK + "mutex.rs"],
     [("lock tried again after the waiter was registered", LK + "mutex.rs"), ("waiter flag follows the slab; remove_waker passes an unused wake-up on", LK + "mutex.rs")],
     ["mutex"], tags=["core", "term", "wake"], replay=["mutex"], assumptions=CONC_ASSUME + [
         "slab::Slab by contract (keys of live entries are distinct and never usize::MAX, iter_mut().next() gives an entry unless empty); wakers' clone, wake and drop do not re-enter the same mutex; MutexGuard::map and MappedMutexGuard (which move the guard with mem::forget) only by the bounded replay"],
     note=CONC_NOTE)

prop("C26", "BiLock gives exclusive access to its two owners and wakes the one that waits",
     "Of the two handles of a BiLock (as used by the split stream/sink and reader/writer halves) at most one holds a guard at any time, data written by one holder is visible to the next, poll_lock succeeds exactly if the lock is free at that moment and otherwise parks the waker of that poll, which is woken when the guard is released; no boxed waker is leaked or freed twice, none of the internal panics is reachable, and reunite gives the value back exactly for the two halves of one lock and otherwise returns both handles.",
     ["schedules", "histories"], "for every interleaving of poll_lock, guard use and release by the two handles",
     "tests alternate the two halves on one thread; the window between finding the lock held and parking a waker is a few instructions",
     [LK + "bilock.rs"],
     [("swap to locked, then park by compare-exchange", LK + "bilock.rs"), ("unlock takes and wakes the parked waker", LK + "bilock.rs")],
     ["bilock"], replay=["bilock"], assumptions=CONC_ASSUME + [
         "each handle is used by one task at a time and does not poll while it holds its own guard; raw boxes as tokens; a lock has exactly two handles, so Arc::try_unwrap succeeds once one of them is dropped"],
     note=CONC_NOTE)

FF = U + "future/future/"
prop("C27", "Shared runs its future once and hands the output to every clone",
     "All clones of a Shared drive one inner future: it is polled by at most one clone at a time, never again once it completed, and every clone completes with its output (peek shows it from then on). Pending is returned only with the waker of that poll registered, and then either another clone is polling the inner future or the inner future was polled with the shared waker afterwards: whenever the inner future wakes it, at least one waiting clone has been woken and has not acted on it yet, even if clones are dropped; when it completes or panics, every waiting clone is woken, and after a panic polling a clone panics instead of hanging.",
     ["schedules", "histories"], "for every number of clones and every interleaving of polls, wake-ups, completion, panics, clones and drops",
     "tests drive one or two clones to completion; dropping a woken clone, or a panic while another clone waits, is not sampled",
     [FF + "shared.rs"],
     [("register before looking at the state", FF + "shared.rs"), ("completion wakes all and closes the slab; a panic poisons and wakes all", FF + "shared.rs"), ("a woken clone that is dropped passes the wake-up on", FF + "shared.rs")],
     ["shared"], tags=["core", "term", "wake"], replay=["shared"], assumptions=CONC_ASSUME + [
         "slab::Slab by contract (keys of live entries are distinct and never usize::MAX; iteration and drain visit every entry once); unwinding itself is not modelled: the guard that runs on a panic (Reset::drop) is verified as a function, that it runs is Rust semantics; wakers do not re-enter the same Shared"],
     note=CONC_NOTE)

prop("C28", "Abort and remote handles stop, transfer or cancel their task reliably",
     "Once abort has been called, an Abortable future completes with Aborted and an Abortable stream ends at its next poll without polling the task again; Aborted is never reported unless abort was called, and until then the task's own results pass through unchanged. A pending Abortable is woken by abort as well as by its task. copy_buf_abortable behaves likewise: after abort it moves no further byte. A Remote sends exactly what its future produced (or its panic) to the RemoteHandle in the poll in which it completes; it gives up early only if the handle was dropped and not forgotten, and a pending Remote is woken when the handle is dropped.",
     ["schedules", "histories"], "for every interleaving of poll, abort, drop of the handle, forget and completion",
     "tests abort before the first poll or after completion; the window between the check and the registration is not sampled",
     [U + "abortable.rs", FF + "remote_handle.rs", IO + "copy_buf_abortable.rs"],
     [("flag set before the wake; flag checked again after registering", U + "abortable.rs"), ("keep_running is read only after the receiver was seen to be gone", FF + "remote_handle.rs")],
     ["abortable", "remote_handle", "io_copyab"], tags=["core", "term", "wake"], replay=["abort", "remote"], assumptions=CONC_ASSUME + [
         "AtomicWaker and oneshot by the contracts of their own units (C22, C23); the relaxed flag of Abortable is ordered by AtomicWaker's AcqRel exchange, as argued in its source; CatchUnwind (which calls std::panic::catch_unwind) by contract"],
     note=CONC_NOTE)

EX = "futures-executor/src/"
prop("C29", "LocalPool and block_on run every task and never sleep through a wake-up",
     "block_on, run and run_until return exactly when their future completed (run: when every task spawned so far has), with its output; in between the thread sleeps only while no wake-up arrived since the last turn began, and a wake-up from any thread at any moment starts another turn. Every task handed to a spawner of a live pool is added before the next poll of the pool, spawning fails exactly if the pool is gone, try_run_one reports true exactly if a task completed, and it and run_until_stalled return otherwise only when the pool is empty or neither a task was spawned nor a wake-up arrived after the pool was polled last. Two executors never run nested on one thread, and the thread is free again when an executor returns or unwinds.",
     ["schedules", "histories"], "for every set of tasks, every spawn by running tasks and every interleaving of wake-ups from any thread with the turns of the executor",
     "tests spawn a few tasks and wake from the same thread; a wake-up between the last poll and parking, or a parking token consumed by somebody else, is not sampled",
     [EX + "local_pool.rs", EX + "enter.rs"],
     [("flag set before unpark and swapped before park", EX + "local_pool.rs"), ("incoming tasks are drained before and looked for after every poll of the pool", EX + "local_pool.rs"), ("thread-local flag reset on drop", EX + "enter.rs")],
     ["local_pool"], tags=["core", "term", "wake"], replay=["local_pool"], assumptions=CONC_ASSUME + [
         "thread::park/unpark by contract (park returns at the latest when a token is available; it may return spuriously); thread-locals are modelled as values owned by the running thread (rule `vtls`); the closures given to run_executor are lifted to functions with their own contract (rule `closurearg`); FuturesUnordered by the contract proved for C21; RefCell borrows do not overlap (tasks spawn only while the pool is not borrowing the queue)",
         "block_on_stream / BlockingStream only by the bounded replay"],
     note=CONC_NOTE)

prop("C30", "ThreadPool polls each task on one thread at a time and loses no wake-up",
     "Every future spawned on a ThreadPool is polled to completion by its workers, by at most one thread at a time, never again once it completed; a wake-up from any thread at any moment (also during a poll of the task) is followed by another poll unless the task has completed, and one task is never queued twice. Each worker runs its start hook once, then the tasks it receives, and its stop hook once after it is told to stop; the workers are told to stop exactly when the last handle is dropped, where every unfinished task counts as a handle.",
     ["schedules", "histories"], "for every number of workers and tasks and every interleaving of wake-ups, polls, clones and drops of handles",
     "tests run a few tasks to completion; a wake-up between the poll and the return to the waiting state needs a specific interleaving",
     [EX + "thread_pool.rs", EX + "unpark_mutex.rs"],
     [("four-state word; a wake-up during a poll leaves a repoll request", EX + "unpark_mutex.rs"), ("start_poll before the first poll, wait after each pending one", EX + "thread_pool.rs"), ("handle count; the last drop sends one Close per worker", EX + "thread_pool.rs")],
     ["thread_pool"], tags=["core", "term", "wake"], replay=["thread_pool"], assumptions=CONC_ASSUME + [
         "std::sync::mpsc by contract (messages are received once, in order); a panic in a task or in a hook is not modelled (it ends the worker); ThreadPoolBuilder::create (thread creation) only by the bounded replay; implicit drops of handles inside dropped tasks are Rust semantics"],
     note=CONC_NOTE)

TK = "futures-task/src/"
prop("C31", "Task wakers own exactly one reference; future objects and spawners are exact",
     "A waker made from an Arc takes its reference over, each clone adds one, waking by value or dropping gives one up, waking by reference and waker references (waker_ref, WakerRef::new) change none: the value is dropped exactly when the last Arc or waker is gone, never earlier, and each wake reaches the ArcWake implementation exactly once through the method meant for it. A FutureObj or LocalFutureObj polls the future it was made from (with the caller's context) and, if it owns it, drops it exactly once. A spawner behind a reference, Box, Rc or Arc hands each task to the executor exactly once and reports the executor's answer and status.",
     ["inputs", "histories"], "for every sequence of clones, wakes and drops of the wakers of a task, every way a future object is made, every spawner behind any pointer",
     "tests check a few clone/drop sequences; reference counts through every vtable entry for every sequence are not sampled",
     [TK + "waker.rs", TK + "waker_ref.rs", TK + "future_obj.rs", TK + "spawn.rs", TK + "noop_waker.rs", "futures-util/src/task/spawn.rs"],
     [("one vtable; each entry takes or leaves exactly the reference meant", TK + "waker.rs"), ("ManuallyDrop around a borrowed waker", TK + "waker_ref.rs"), ("drop function stored next to the pointer", TK + "future_obj.rs"), ("delegation of spawn and status", TK + "spawn.rs")],
     ["task_waker", "task_spawn"], tags=["core", "wake"], replay=["task"], assumptions=[
         "Arc::into_raw/from_raw/as_ptr, Arc::clone, ManuallyDrop, ptr::read and Waker::from_raw by contract over a ghost reference count; owned handles of a function are released when it returns (Rust drop semantics)",
         "the standard library calls the vtable entry meant for each Waker operation",
         "future_obj.rs (unsafe fat pointers and drop function pointers), noop_waker.rs and the extension methods of futures-util/src/task/spawn.rs only by the bounded replay"])

prop("C32", "A pointer to a future, stream, sink or I/O object behaves as the object itself",
     "Every call of a Stream, FusedStream, FusedFuture, TryStream, TryFuture, Sink, AsyncRead, AsyncBufRead, AsyncWrite or AsyncSeek method on a &mut, Box, Pin or Either (for streams and futures also AssertUnwindSafe) reaches the same method of the object behind it exactly once, with the same context and arguments, and returns its answer; so does every write through a BufReader and every read through a BufWriter. Vec and VecDeque as sinks, &[u8] as reader and Vec<u8> as writer accept or deliver every item or byte in order and never wait. The provided vectored methods use the first non-empty buffer.",
     ["inputs"], "for every object, every call and every answer of the object",
     "tests poll boxed streams with one answer each; that each of the methods of each trait is passed on, with every answer, is not sampled",
     ["futures-core/src/stream.rs", "futures-core/src/future.rs", "futures-sink/src/lib.rs", "futures-io/src/lib.rs", U + "future/either.rs", U + "lib.rs"],
     [("delegation through &mut **self", "futures-core/src/stream.rs"), ("delegation and in-memory sinks", "futures-sink/src/lib.rs"), ("delegation macros", "futures-io/src/lib.rs"), ("FusedFuture delegation", "futures-core/src/future.rs"), ("Either passes every call to the side it holds", U + "future/either.rs")],
     ["deleg_core", "deleg_sink", "deleg_io", "deleg_buf", "either", "io_either"], tags=["core", "term", "wake", "size"], replay=["ptr"], assumptions=[
         "the impls for Pin<P> are verified at P = &mut T (P: DerefMut is not expressible in the verifier); Pin<Box<T>> only by the bounded replay",
         "std's Read/BufRead for &[u8], Write for Vec<u8> and Future for pointers by contract",
         "vectored methods only by the bounded replay"])
