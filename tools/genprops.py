#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line). Kept as a script so the text is reviewable.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

KT="The existing tests that touch a broker are skipped without a real Kafka, and with one they run a single member on one lucky schedule without faults."
p("C01","Each source event takes effect exactly once, atomically",
 "For every source event, the records it forwards, the state changes it records and the advance of the consumer's committed position become visible to read-committed readers together or not at all, and in the whole history they become visible exactly once. This holds across member crashes, joins, leaves, rebalances, lost or repeated broker responses, dropped connections and transaction aborts.",
 ["schedules","crash_points","fault_sequences","configurations","histories"],
 "all interleavings of workers, transaction pool, commit loop and group protocol; all crash points; all sequences of the modelled faults; pool sizes, batch sizes, balancers, sync and async handlers",
 KT+" No test crashes a member, loses a response or moves a partition under load.",
 ["streams/eos_producer.go","streams/partition_worker.go","streams/source_consumer.go","streams/commit_log.go"],
 [("transaction pool: effects and commit record in one Kafka transaction","streams/eos_producer.go producerNode.commit/finalizeEventContexts"),("resume position read from the commit log after a marker","streams/commit_log.go lastProcessed"),("hand-off of a partition between members","streams/source_consumer.go revokePartitions, streams/partition_worker.go waitForRevocation")],
 ["read-committed view of output, change-log and commit-log topics on the simulated broker","events handed to handlers"])
p("C02","No event is lost: committed position never passes unfinished work",
 "The committed position of a source partition never covers an event whose processing was not completed and whose effects are not visible, and it never moves backwards. A member that takes over a partition resumes exactly at the committed position, so no event is skipped.",
 ["schedules","crash_points","fault_sequences","histories"],
 "all crash and rebalance points, all completion orders of asynchronous events inside and across transactions",
 KT+" Out-of-order completion against crash and takeover is never exercised.",
 ["streams/eos_producer.go","streams/commit_log.go","streams/source_consumer.go","streams/partition_worker.go","streams/async_scheduler.go"],
 [("commit waits for every event of the transaction","streams/eos_producer.go finalizeEventContexts"),("highest offset recorded + 1","streams/commit_log.go commitRecord"),("start offset from commit log","streams/source_consumer.go adjustOffsetsBeforeAssign")],
 ["commit-log topic on the simulated broker at every transaction end","offsets handed to handlers"])
p("C03","Committed output keeps source order across the transaction pool",
 "For synchronous processing, the committed records derived from one source partition appear in each destination partition in source-event order, and the records of one event in the order it emitted them, although several transactions are open concurrently. State changes of one partition likewise appear in the change log in the order they were recorded, and a forwarded record lands on the partition asked for.",
 ["schedules","crash_points","fault_sequences","configurations"],
 "all overlaps of pool producers, all flush/commit timings, member changes and aborted attempts",
 "Ordering depends on which of several concurrent producer clients owns a partition at each produce call; no test drives the pool.",
 ["streams/eos_producer.go","streams/record.go","streams/event_context.go"],
 [("ownership of a partition passes from the committing producer to the next in the ring with its buffered records flushed first","streams/eos_producer.go relinquishOwnership/flushPartition/ProduceRecord"),("explicit partition or key partitioner","streams/record.go OptionalPartitioner")],
 ["record order in the simulated destination and change-log partitions"])
p("C04","A partition's state store equals its committed history",
 "Before a member runs any handler for a partition it was assigned, the partition's state store equals the result of applying that partition's committed state changes in order, with nothing aborted, missing, stale or repeated. From then on it equals that plus the changes of the events it processed itself, and a store is told when its partition is taken away.",
 ["schedules","crash_points","fault_sequences","histories","configurations"],
 "all rebalances (prepared in advance, cancelled, repeated, or unprepared), crashes during preparation, compaction of the change log, aborted transactions in the log, slow fetches",
 KT+" No test moves a stateful partition or restores a store.",
 ["streams/state_store_consumer.go","streams/partitioned_store.go","streams/source_consumer.go","streams/partition_worker.go"],
 [("marker record written and awaited before activation","streams/state_store_consumer.go sync/isCompletionMarker"),("prepare in advance, then sync again on assignment","streams/source_consumer.go PrepareTopicPartition/assignPartitions")],
 ["store contents seen by handlers and the activation callback versus a fold over the broker's committed change log"])
p("C05","A partition's handlers run serially, in offset order, while it is owned",
 "On a member, all handlers, interjections and asynchronous completion functions of one partition run one at a time. Within an assignment events are handed over in strictly increasing, gap-free offset order starting at the committed position, and only between activation and the end of revocation.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of fetches, interjections, asynchronous completions, revocation and re-assignment",
 "Single-threaded access is what lets users keep stores without locks; tests never run handlers concurrently with completions and interjections.",
 ["streams/partition_worker.go","streams/source_consumer.go","streams/event_context.go"],
 [("one goroutine per partition selects over events, interjections and completions","streams/partition_worker.go work"),("stale records dropped by offset","streams/partition_worker.go scheduleTxnAndExecution")],
 ["entry and exit of every user callback"])
p("C06","Progress: after faults stop, every event is committed",
 "Once faults stop and at least one healthy member runs, every event in the source topic is processed and committed within a bounded time, the group settles, and nothing wedges, whatever the earlier faults, rebalances, back-pressure or slow handlers were.",
 ["schedules","fault_sequences","crash_points","configurations"],
 "all fault sequences from the model followed by a quiet period; small buffers and batches that keep back-pressure on",
 "A deadlock or lost wake-up needs a particular interleaving of rebalance, back-pressure and transaction commit.",
 ["streams/eos_producer.go","streams/partition_worker.go","streams/source_consumer.go","streams/state_store_consumer.go"],
 [("flush timer re-armed while work is pending","streams/eos_producer.go tryFlush"),("async jobs served while waiting for a producer","streams/partition_worker.go assignProducer"),("failing member leaves the group","streams/event_source.go closeOnFail")],
 ["committed position versus end of the source topic at the end of the quiet period"])
p("C07","Stopping always finishes, cleanly and without panics",
 "A graceful stop hands every owned partition over, lets accepted work finish and signals completion; an immediate stop signals completion at once; neither blocks forever nor panics, at any moment and in any combination or repetition. After completion is signalled the member takes no further part: no handler starts and no transaction is committed by it.",
 ["schedules","fault_sequences","histories"],
 "stops at every point of start-up, preparation, processing, rebalancing and failure, one or several members at once, slow metric handlers and pending interjections",
 "Shutdown races (closed channels, senders blocked on receivers that left) need specific schedules; tests do not stop a running source.",
 ["streams/event_source.go","streams/source_consumer.go","streams/partition_worker.go","streams/incr_rebalancer.go"],
 [("Stop leaves gracefully, then halts","streams/event_source.go Stop"),("StopNow halts, then closes","streams/event_source.go StopNow")],
 ["done signal, goroutine panics, handler calls and transaction ends after done"])
p("C08","A failed transaction is contained and handed over",
 "When a transaction cannot be committed, none of its effects become visible, the configured error policy is consulted, and under the fail policy the member reports itself unhealthy, leaves the group and commits nothing more for those events. Other members then process the same events; under the exit policy the process terminates.",
 ["schedules","fault_sequences","crash_points"],
 "fencing, aborted and timed-out transactions, records rejected by the broker, at every point of a transaction",
 "Needs a broker that rejects a chosen request in a chosen transaction.",
 ["streams/eos_producer.go","streams/error_handling.go","streams/event_source.go","streams/source.go"],
 [("commit loop consults the error handler and fails the source","streams/eos_producer.go commitLoop"),("failure closes the consumer","streams/event_source.go closeOnFail")],
 ["error-policy calls, reported state, group membership, visible records"])
p("C09","Transactions respect batch bounds and the batch delay",
 "No transaction takes in more events than the configured maximum batch, and at low load an event that has completed is committed within a small multiple of the configured batch delay plus broker round trips. Fewer than the target number of events never wait for more to arrive.",
 ["schedules","configurations","inputs"],
 "all pool and batch configurations including target equal to maximum and maximum one; all arrival patterns",
 "Bounds depend on the race between producing handlers, the flush timer and the commit loop.",
 ["streams/eos_producer.go","streams/eos_config.go"],
 [("forced swap at the maximum","streams/eos_producer.go shouldForceFlush/tryFlush"),("flush timer","streams/eos_producer.go forwardExecutionContexts")],
 ["committed offset deltas per transaction and commit latency in simulated time"])
p("C10","Interjections run in partition context and always resolve",
 "A one-off interjection into an active partition runs exactly once, in that partition's serial context, and its result channel resolves; into an unassigned partition, or one that is taken away first, the channel resolves without running it. Scheduled interjections keep firing within their interval and jitter on every active partition, also when they finish asynchronously, stop with the assignment, and what they emit is transactional.",
 ["schedules","fault_sequences","histories"],
 "interjections at any moment of assignment, revocation, back-pressure and shutdown, from several callers",
 "Revocation while an interjection is queued needs a particular schedule; no test interjects.",
 ["streams/interjection.go","streams/partition_worker.go","streams/source_consumer.go"],
 [("interjection input served between events","streams/partition_worker.go pushRecords/interleaveInterjection"),("result channel closed by the run","streams/source_consumer.go interject"),("timer re-armed after completion","streams/interjection.go tick")],
 ["interjector invocations, result channels, store and output effects"])
p("C11","Events reach the right processor; bad records follow policy",
 "Each event is handed to the processor registered for its record type, or to the default processor if none is, with the value its decoder produced, key, headers and payload intact. A record that cannot be decoded goes to the configured deserialization policy exactly once and, if it says continue, is skipped and committed without blocking or losing its neighbours, including across replays after faults.",
 ["inputs","schedules","fault_sequences","histories"],
 "mixes of typed, untyped and undecodable records under rebalances, crashes and connection faults",
 "Tests cover decoding of single values, not routing together with commit and replay.",
 ["streams/event_source.go","streams/source.go","streams/record.go","streams/error_handling.go"],
 [("chain of typed processors","streams/event_source.go eventProcessorWrapper.process"),("decode failure policy","streams/event_source.go Exec, streams/source.go deserializationErrorHandler")],
 ["calls of processors and error policy; committed positions"])
p("C12","Metrics never slow down or stop processing",
 "A metrics handler that is slow or blocked does not delay processing, committing, rebalancing or stopping: metrics that do not fit are dropped. A handler that keeps up gets, for committed transactions and prepared partitions, counts that match what really happened.",
 ["schedules","fault_sequences","configurations"],
 "handlers of any speed, including one that never returns, during processing, rebalancing and shutdown",
 "Needs a stalled handler for long enough to fill the internal buffer.",
 ["streams/event_source.go","streams/metric.go","streams/eos_producer.go","streams/source_consumer.go"],
 [("non-blocking send","streams/event_source.go EmitMetric"),("transaction metric","streams/eos_producer.go clearState"),("preparation metric","streams/source_consumer.go PrepareTopicPartition")],
 ["progress with a blocked handler, metric counts versus broker history"])
p("C13","Incremental rebalancing moves prepared partitions, one at a time",
 "With the incremental balancer every partition ends with exactly one owner, unowned partitions are given to an active member at the next rebalance, and the group reaches a balanced state and stays there. A partition is taken from a live owner only after the receiver reported it prepared, at most one move is under way at a time, and a member leaving gracefully is drained completely before it goes.",
 ["schedules","fault_sequences","histories","configurations"],
 "all sequences of joins, graceful leaves, crashes, slow or failed preparations, repeated and concurrent rebalances, member counts and partition counts",
 "Balancing decisions depend on metadata from many rebalances; there is no balancer test at all.",
 ["streams/incr_rebalancer.go","streams/group_state.go","streams/balancer_options.go"],
 [("receivership and budget","streams/group_state.go balance/schedulePartitionMoves"),("prepare instructions in the assignment","streams/incr_rebalancer.go ParseSyncAssignment"),("graceful leave","streams/incr_rebalancer.go GracefullyLeaveGroup")],
 ["assignments and prepare calls at each generation"])
p("C14","Async jobs of a key run one at a time, in order, once each",
 "Every job scheduled while the scheduler runs is processed exactly once and then finalized exactly once with its own event, key, value and error; jobs of the same key are processed and handed back in scheduling order, never two at once. This holds under any concurrency, queue depth and key limits, also while the limits are being changed, and jobs refused or dropped because of shutdown are never reported as complete.",
 ["schedules","configurations","fault_sequences"],
 "all interleavings of schedulers, workers, dynamic limit changes and halt; queues of any depth",
 "Two tests drive one favourable schedule each; lost wake-ups and orphaned queues need specific interleavings.",
 ["streams/async_scheduler.go","streams/async_item_queue.go"],
 [("per-key worker with a FIFO queue, kept alive while non-empty","streams/async_scheduler.go scheduleItem/releaseWorker"),("peekable queue with back-pressure","streams/async_item_queue.go")],
 ["processor and finalizer calls"])
p("C15","Async scheduling honours its limits and keeps moving",
 "No more jobs run at once than the configured concurrency and no more keys are held at once than the key limit, while keys other than a blocked one keep moving. Callers are held back rather than jobs dropped when limits are reached, every waiting caller is released when capacity appears or the scheduler halts, and idle schedulers do not spin.",
 ["schedules","configurations","fault_sequences"],
 "slow, stalled and failing processors, many callers, limit changes, halt at any time",
 "Back-pressure release depends on the order of worker completion and caller arrival.",
 ["streams/async_scheduler.go","streams/async_item_queue.go"],
 [("worker-free signal","streams/async_scheduler.go waitForWorker/workerAvailable"),("bounded key map","streams/async_scheduler.go grabWorker")],
 ["concurrent processor count, blocked callers, scheduler steps while idle"])
p("C16","Batched items keep key order, limits and exactly-once callbacks",
 "Every item added to a batcher is handed to the batch executor exactly once, in batches no larger than the maximum and no more batches at once than allowed, with items of one key never in two running batches and always in order of addition. A batch's callback runs exactly once, after all its items were executed, with their results; containers without items take their turn in the order of their key.",
 ["schedules","configurations","inputs"],
 "all interleavings of adds, flush timers, executor durations; mixed keys, empty containers, any size and delay",
 "Two tests use one schedule each; the timer/size race and the pending queue are schedule dependent.",
 ["streams/async_batcher.go"],
 [("key-to-batch assignment while pending or running","streams/async_batcher.go asyncExecutorFor/reset"),("delay timer or size triggers execution","streams/async_batcher.go addToExecutor/conditionallyExecuteBatch")],
 ["batch executor invocations and callbacks"])
p("C17","Producers report each record exactly once, truthfully",
 "For each record or batch handed to a producer its callback runs exactly once after the outcome is known; success means the record is in the topic, unmodified, on the requested or key-derived partition, and per-partition order follows submission order. A batch of any size, including none, completes its event exactly once, and failures are reported on the record that failed.",
 ["schedules","fault_sequences","inputs"],
 "connection loss, lost responses, retriable and fatal broker errors, leader moves, client close",
 "Needs broker faults between append and acknowledgement.",
 ["streams/producer.go","streams/record.go"],
 [("pending counter per batch","streams/producer.go recordComplete"),("synchronous produce waits for the callback","streams/producer.go Produce")],
 ["callbacks versus the contents of the simulated topic"])
p("C18","A global change log delivers every committed record in order",
 "A global change log hands every committed record of every partition to its receiver exactly once, in partition order, from the beginning or the offset it was told to resume from, never an aborted or uncommitted one, and keeps doing so through broker faults and receiver errors. Paused partitions stay quiet until resumed, and a stopped one ends.",
 ["schedules","fault_sequences","histories"],
 "connection loss, fetch errors, transactions that abort, receiver errors, pause/resume/stop at any time",
 "No test runs one; delivery across fetch faults needs a controllable broker.",
 ["streams/global_change_log.go"],
 [("assignment from the start of all partitions, read committed","streams/global_change_log.go NewGlobalChangeLogWithRunStatus"),("consume loop","streams/global_change_log.go consume")],
 ["receiver calls versus committed log on the simulated broker"])
p("C19","Topic bootstrap is idempotent and survives faults and races",
 "Creating a source or destination, from one or many members at once and under transient broker and network faults, ends with all required topics present with the requested or pre-existing partition counts and compaction settings, and a source description that matches the cluster, or returns an error. It never panics, hangs, or recreates, alters or duplicates topics, and inconsistent topics are reported as an error.",
 ["schedules","fault_sequences","configurations"],
 "concurrent creators, lost create responses, connection refusals, existing topics with equal and different partition counts",
 "Bootstrap is only exercised against a healthy real broker.",
 ["streams/topics.go","streams/source.go"],
 [("list, then create what is missing","streams/topics.go resolveOrCreateTopics"),("retry on network errors","streams/topics.go CreateSource/CreateDestination")],
 ["topics on the simulated cluster, returned source, panics"])
p("C20","MSK clients get valid brokers and credentials despite faults",
 "An MSK cluster yields client options exactly when brokers for the chosen authentication mode were obtained, for the right endpoint kind, and an error otherwise; IAM logins use the credentials the provider currently returns, refresh after they expire, and turn provider failures into login errors. Transient provider or control-plane failures never yield empty or stale credentials.",
 ["fault_sequences","schedules","configurations"],
 "provider failures, slow calls, credential expiry and rotation, partial broker lists, concurrent logins",
 "Tests mock one successful control-plane reply per mode and never log in.",
 ["msk/cluster.go"],
 [("broker list by auth type","msk/cluster.go"),("credential callback for SASL","msk/cluster.go saslIamAuth")],
 ["options returned, SASL tokens presented to the simulated broker"])
p("C21","The bundled simple store survives a move unchanged",
 "A simple store rebuilt on another member from its change log holds exactly the items the previous owner had committed: same keys, latest values, no deleted or undecodable items, for any sequence of puts and deletes, crash points and log compaction.",
 ["histories","crash_points","inputs","fault_sequences"],
 "all histories of put/delete interleaved with crashes, rebalances and compaction",
 "The store has no test that replays a change log.",
 ["streams/stores/simple_store.go"],
 [("replay of change-log records","streams/stores/simple_store.go ReceiveChange"),("change-log entries for put and delete","streams/stores/simple_store.go ToChangeLogEntry/Delete")],
 ["store contents on the new owner versus the model"])
p("C22","Order-preserving integer keys sort like the integers they encode",
 "The lexicographic order of encoded integer keys equals the numeric order of the integers, and decoding returns the integer that was encoded.",
 ["inputs"],"all 64-bit integers","Tests sample a few values and only check the round trip.",
 ["streams/codec.go"],[("LexoInt64 codec","streams/codec.go")],["encoded bytes"])
p("C23","The heap store always yields items in priority order",
 "For every sequence of insertions, updates and removals, the double-ended heap returns the true minimum and maximum of its contents and loses or duplicates no item.",
 ["inputs","programs"],"all operation sequences","There is no test of the heap.",
 ["streams/stores/min_max_heap.go"],[("min-max heap","streams/stores/min_max_heap.go")],["results of heap operations"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
