From 645b9de348c04317408f25b352a4090048f6a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 01/33] fix: commit accepted events before a partition is
 handed over

Revocation returned (and the partition was reassigned) while events already
accepted by a producerNode were still uncommitted, and closed the channels of
the worker while other goroutines were blocked sending on them. Wait for the
worker to drain (or for the producer pool to fail) before the partition is
released, and signal closing with a dedicated channel.
---
 streams/eos_producer.go     | 19 +++++++-
 streams/partition_worker.go | 90 ++++++++++++++++++++++++++++++-------
 streams/source_consumer.go  | 19 +++++---
 3 files changed, 106 insertions(+), 22 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..0b60db9 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -92,6 +92,7 @@ type eosProducerPool[T StateStore] struct {
 	startTime         time.Time
 	errorChannel      chan error
 	commitClient      *kgo.Client
+	stopped           chan struct{} // closed once nothing more will be committed
 }
 
 func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, cfg EosConfig, commitClient *kgo.Client, metrics chan Metric) *eosProducerPool[T] {
@@ -104,6 +105,7 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 		errorChannel:      make(chan error, 1024), //giving this some size so we don't block on errors in other go routines
 		source:            source,
 		commitClient:      commitClient,
+		stopped:           make(chan struct{}),
 		partitionOwners: partitionOwners[T]{
 			owners: make(map[int32]*producerNode[T]),
 			mux:    new(sync.Mutex),
@@ -134,7 +136,21 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 
 // buffer the event context until a producer node is available
 func (pp *eosProducerPool[T]) addEventContext(ec *EventContext[T]) {
-	pp.buffer <- ec
+	select {
+	case pp.buffer <- ec:
+	case <-pp.stopped:
+		ec.producerChan <- nil
+		ec.revocationWaiter.Done()
+	}
+}
+
+func (pp *eosProducerPool[T]) isStopped() bool {
+	select {
+	case <-pp.stopped:
+		return true
+	default:
+		return false
+	}
 }
 
 func (pp *eosProducerPool[T]) maxPendingItems() int {
@@ -214,6 +230,7 @@ func (pp *eosProducerPool[T]) commitLoop() {
 		}
 		if err != nil {
 			if instructions := pp.source.eosErrorHandler()(err); instructions != Continue {
+				close(pp.stopped)
 				pp.source.fail(err)
 				switch instructions {
 				case FailConsumer:
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..fd374c0 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -52,12 +52,24 @@ func (aj AsyncJob[T]) Finalize() ExecutionState {
 
 type asyncCompleter[T any] struct {
 	asyncJobs chan AsyncJob[T]
+	closed    chan struct{}
 }
 
 func (ac asyncCompleter[T]) AsyncComplete(j AsyncJob[T]) {
-	ac.asyncJobs <- j
+	select {
+	case ac.asyncJobs <- j:
+	case <-ac.closed:
+		// the worker is gone, and the transaction this job belongs to with it
+	}
 }
 
+// the lifecycle of a partitionWorker
+const (
+	workerInitializing int64 = iota
+	workerReady
+	workerAbandoned // revoked before it was ready
+)
+
 type partitionWorker[T StateStore] struct {
 	eosProducer            *eosProducerPool[T]
 	partitionInput         chan []*kgo.Record
@@ -69,6 +81,7 @@ type partitionWorker[T StateStore] struct {
 	stopSignal             chan struct{}
 	revokedSignal          chan struct{}
 	stopped                chan struct{}
+	closed                 chan struct{}
 	changeLog              changeLogPartition[T]
 	eventSource            *EventSource[T]
 	runStatus              sak.RunStatus
@@ -90,6 +103,7 @@ func newPartitionWorker[T StateStore](
 
 	recordsInputSize := sak.Max(eosConfig.MaxBatchSize/10, 100)
 	asyncSize := recordsInputSize * 4
+	closed := make(chan struct{})
 	pw := &partitionWorker[T]{
 		eventSource:    eventSource,
 		topicPartition: topicPartition,
@@ -98,9 +112,11 @@ func newPartitionWorker[T StateStore](
 		stopSignal:     make(chan struct{}),
 		revokedSignal:  make(chan struct{}, 1),
 		stopped:        make(chan struct{}),
+		closed:         closed,
 		maxPending:     make(chan struct{}, eosProducer.maxPendingItems()),
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
+			closed:    closed,
 		},
 		partitionInput:         make(chan []*kgo.Record, 4),
 		eventInput:             make(chan *EventContext[T], recordsInputSize),
@@ -115,7 +131,7 @@ func newPartitionWorker[T StateStore](
 	return pw
 }
 func (pw *partitionWorker[T]) canInterject() bool {
-	return atomic.LoadInt64(&pw.ready) != 0
+	return atomic.LoadInt64(&pw.ready) == workerReady
 }
 
 func (pw *partitionWorker[T]) add(records []*kgo.Record) {
@@ -123,11 +139,21 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done():
+	}
 }
 
-func (pw *partitionWorker[T]) revoke() {
+// Stops the worker. Returns false if the worker was not active yet, in which case it never will be.
+func (pw *partitionWorker[T]) revoke() bool {
 	pw.runStatus.Halt()
+	return !atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerAbandoned)
+}
+
+// Blocks until all events accepted by a producerNode are committed and nothing more is processed for this partition.
+func (pw *partitionWorker[T]) waitUntilClosed() {
+	<-pw.closed
 }
 
 type sincer struct {
@@ -151,9 +177,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
-			close(pw.partitionInput)
-			close(pw.eventInput)
-			close(pw.asyncCompleter.asyncJobs)
+			close(pw.closed)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
 		}
@@ -166,10 +190,17 @@ func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 	}
 
 	pw.revocationWaiter.Add(len(records)) // optimistically do one add call
-	for _, record := range records {
+	for i, record := range records {
+		if pw.isRevoked() {
+			pw.revocationWaiter.Add(i - len(records)) // the remainder will not be processed
+			return
+		}
 		if record != nil && record.Offset >= pw.highestOffset {
 			ec := newEventContext(pw.runStatus.Ctx(), record, pw.changeLog.changeLogData(), pw)
-			pw.maxPending <- struct{}{}
+			if !pw.acquirePending() {
+				pw.revocationWaiter.Add(i - len(records))
+				return
+			}
 			pw.eosProducer.addEventContext(ec)
 			pw.eventInput <- ec
 		} else {
@@ -198,11 +229,27 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	}
 	pw.revocationWaiter.Add(1)
 	ec := newInterjectionContext(pw.runStatus.Ctx(), inter, pw.topicPartition, pw.changeLog.changeLogData(), pw)
-	pw.maxPending <- struct{}{}
+	if !pw.acquirePending() {
+		pw.revocationWaiter.Done()
+		if inter.callback != nil {
+			inter.callback()
+		}
+		return
+	}
 	pw.eosProducer.addEventContext(ec)
 	pw.interjectionEventInput <- ec
 }
 
+// Blocks until another item may be processed, returns false if this will not happen because the producer pool has failed.
+func (pw *partitionWorker[T]) acquirePending() bool {
+	select {
+	case pw.maxPending <- struct{}{}:
+		return true
+	case <-pw.eosProducer.stopped:
+		return false
+	}
+}
+
 func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(), commitLog *eosCommitLog) {
 	elapsed := sincer{time.Now()}
 	// the partition is not ready to receive events as it is still bootstrapping the state store.
@@ -217,12 +264,15 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
 	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
 	waiter()
+	if !atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerReady) {
+		log.Debugf("partitionWorker for %+v was revoked before it was activated", pw.topicPartition)
+		return
+	}
 	pw.eventSource.consumer.Client().ResumeFetchPartitions(map[string][]int32{
 		pw.topicPartition.Topic: {pw.topicPartition.Partition},
 	})
 	// resume partition if it was paused
 	go pw.pushRecords()
-	atomic.StoreInt64(&pw.ready, 1)
 	log.Debugf("partitionWorker activated %+v in %v, interjectionCount: %d", pw.topicPartition, elapsed, len(interjections))
 	ijPtrs := sak.ToPtrSlice(interjections)
 	for _, ij := range ijPtrs {
@@ -251,7 +301,15 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 }
 
 func (pw *partitionWorker[T]) waitForRevocation() {
-	pw.revocationWaiter.Wait() // wait until all pending events have been accpted by a producerNode
+	done := make(chan struct{})
+	go func() {
+		pw.revocationWaiter.Wait() // wait until all pending events have been accpted by a producerNode
+		close(done)
+	}()
+	select {
+	case <-done:
+	case <-pw.eosProducer.stopped: // nothing more will be committed
+	}
 	pw.revokedSignal <- struct{}{}
 }
 
@@ -269,12 +327,12 @@ func (pw *partitionWorker[T]) isRevoked() bool {
 func (pw *partitionWorker[T]) handleInterjection(ec *EventContext[T]) {
 	inter := ec.interjection
 	pw.assignProducer(ec)
-	if ec.producer == nil {
+	if ec.producer == nil || pw.eosProducer.isStopped() {
 		<-pw.maxPending
 		if inter.callback != nil {
 			inter.callback() // we need to close off 1-off interjections to prevent sourceConsumer from hanging
 		}
-	} else if ec.producer != nil && inter.interject(ec) == Complete {
+	} else if inter.interject(ec) == Complete {
 		ec.complete()
 		<-pw.maxPending
 		inter.tick()
@@ -296,13 +354,15 @@ func (pw *partitionWorker[T]) assignProducer(ec *EventContext[T]) {
 			return
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
+		case <-pw.eosProducer.stopped:
+			return
 		}
 	}
 }
 
 func (pw *partitionWorker[T]) forwardToEventSource(ec *EventContext[T]) {
 	pw.assignProducer(ec)
-	if ec.producer == nil {
+	if ec.producer == nil || pw.eosProducer.isStopped() {
 		// if we're revoked, don't even add this to the onDeck producer
 		<-pw.maxPending
 		return
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..19c2aa0 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -223,18 +223,25 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
+	var active []*partitionWorker[T]
 	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
-	if sc.partitionedStore == nil {
-		return
-	}
-
 	for _, p := range partitions {
 		sc.source.onPartitionWillRevoke(p)
 		if worker, ok := sc.workers[p]; ok {
-			worker.revoke()
+			if worker.revoke() {
+				active = append(active, worker)
+			}
 			delete(sc.workers, p)
 		}
+	}
+	sc.workerMux.Unlock()
+
+	// another consumer takes over as soon as we return, accepted events must be committed by then.
+	// workerMux can not be held as event processors may be interjecting
+	for _, worker := range active {
+		worker.waitUntilClosed()
+	}
+	for _, p := range partitions {
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
-- 
2.43.0


From 6e14a1c65b1d078a448494464f5c14b5880c0fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 02/33] fix: do not commit a transaction that is missing
 records

Errors of individual records were only reported, EndTransaction would still
commit the remainder of the transaction (kgo does not fail a transaction for
them).
---
 streams/eos_producer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 0b60db9..1b8805a 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -283,6 +283,7 @@ type producerNode[T any] struct {
 	id                int
 	txnErrorHandler   TxnErrorHandler
 	errorChannel      chan error
+	produceErr        atomic.Pointer[error] // the first error of any record in the current transaction
 	// errs                  []error
 }
 
@@ -395,6 +396,11 @@ func (p *producerNode[T]) commit() error {
 		log.Errorf("eos producer error: %v", err)
 		return err
 	}
+	if produceErr := p.produceErr.Load(); produceErr != nil {
+		// at least one record is not part of this transaction, it can not be committed
+		log.Errorf("eos producer error: %v", *produceErr)
+		return *produceErr
+	}
 	action := kgo.TryCommit
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
@@ -540,6 +546,7 @@ func (p *producerNode[T]) produceKafkaRecord(record *Record, cb func(*Record, er
 		atomic.AddInt64(&p.byteCount, int64(recordSize(*r)))
 		if err != nil {
 			log.Errorf("%v, record %+v", err, r)
+			p.produceErr.CompareAndSwap(nil, &err)
 			select {
 			case p.errorChannel <- err:
 			default:
-- 
2.43.0


From aaa801b8da747be164570d00db2ab949f3ff35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 03/33] fix: do not activate partitions before the EventSource
 is initialized

The kafka client joins its group as soon as it is created. If the first
assignment arrived before newEventSourceConsumer returned, or before
ConsumeEvents was called, it was handled with a nil stateStoreConsumer,
producerPool or consumer (panic), or without the registered processors and
interjections. Also, incrBalancer is nil if none of the BalanceStrategies is
incremental.
---
 streams/source_consumer.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 19c2aa0..253179a 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -40,6 +40,8 @@ type eventSourceConsumer[T StateStore] struct {
 	commitLog          *eosCommitLog
 	producerPool       *eosProducerPool[T]
 	metrics            chan Metric
+	started            chan struct{} // closed once the EventSource is consuming, or has been stopped
+	startOnce          sync.Once
 	// prepping           map[int32]*partitionPrepper[T]
 }
 
@@ -60,6 +62,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		source:           source,
 		commitLog:        cl,
 		metrics:          eventSource.metrics,
+		started:          make(chan struct{}),
 	}
 	balanceStrategies := source.config.BalanceStrategies
 	if len(balanceStrategies) == 0 {
@@ -88,6 +91,15 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	} else {
 		opts = append(opts, kgo.DisableAutoCommit())
 	}
+	for _, gb := range groupBalancers {
+		if igr, ok := gb.(IncrementalGroupRebalancer); ok {
+			sc.incrBalancer = igr
+			break
+		}
+	}
+	sc.stateStoreConsumer = newStateStoreConsumer[T](eventSource.ForkRunStatus(), source)
+
+	// joins the group, the balancers may be invoked from here on
 	client, err := NewClient(
 		source.config.SourceCluster, opts...)
 
@@ -99,15 +111,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 
 	eosConfig.validate()
 	sc.producerPool = newEOSProducerPool[T](source, cl, eosConfig, client, eventSource.metrics)
-
-	for _, gb := range groupBalancers {
-		if igr, ok := gb.(IncrementalGroupRebalancer); ok {
-			sc.incrBalancer = igr
-			break
-		}
-	}
 	sc.client = client
-	sc.stateStoreConsumer = newStateStoreConsumer[T](eventSource.ForkRunStatus(), source)
 	if err != nil {
 		return nil, err
 	}
@@ -149,6 +153,7 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			start := time.Now()
 			log.Debugf("prepping %+v", tp)
 
+			<-sc.started // the balancer needs our client
 			ssp.sync()
 			processed := ssp.processed()
 			duration := time.Since(start)
@@ -217,7 +222,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
@@ -249,6 +256,9 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 }
 
 func (sc *eventSourceConsumer[T]) partitionsAssigned(ctx context.Context, _ *kgo.Client, assignments map[string][]int32) {
+	// the client joins the group as soon as it is created, but partitions can not be activated
+	// until the EventSource is fully initialized and all EventProcessors are registered
+	<-sc.started
 	for topic, partitions := range assignments {
 		log.Debugf("assigned topic: %s, partitions: %v", topic, assignments)
 		sc.assignPartitions(topic, partitions)
@@ -272,9 +282,14 @@ func (sc *eventSourceConsumer[T]) receive(p kgo.FetchTopicPartition) {
 	worker.add(p.Records)
 }
 
+func (sc *eventSourceConsumer[T]) setStarted() {
+	sc.startOnce.Do(func() { close(sc.started) })
+}
+
 // Starts the underlying kafka client and syncs the local commit log for the consumer group.
 // Once synced, polls for records and forwards them to partitionWorkers.
 func (sc *eventSourceConsumer[T]) start() {
+	sc.setStarted()
 	go sc.commitLog.Start()
 	sc.commitLog.syncAll()
 	for {
@@ -401,6 +416,7 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 
 // Immediately stops the consumer, leaving the consumer group abruptly.
 func (sc *eventSourceConsumer[T]) stop() {
+	sc.setStarted() // don't block the client from leaving the group
 	sc.client.Close()
 	log.Infof("left group: %v", sc.source.GroupId())
 }
-- 
2.43.0


From b97176892b3453c56600f701d7899f7fd39fc14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 04/33] fix: bind state store population to a single assignment

The stateStorePartition was reused for every assignment of a partition: a
cancelled or revoked population could leave waiters behind which completed the
next population early, close its channel while the consumer was sending to it,
pause a partition which had just been prepared again (forever), or keep
changing a store which was already handed out again. Also retry marker records
which could not be produced, instead of waiting for them forever.
---
 streams/partition_worker.go     |   9 +-
 streams/source_consumer.go      |  23 +++--
 streams/state_store_consumer.go | 151 ++++++++++++++++++++++++--------
 3 files changed, 134 insertions(+), 49 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index fd374c0..5c1a661 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -97,7 +97,7 @@ func newPartitionWorker[T StateStore](
 	commitLog *eosCommitLog,
 	changeLog changeLogPartition[T],
 	eosProducer *eosProducerPool[T],
-	waiter func()) *partitionWorker[T] {
+	waiter func() bool) *partitionWorker[T] {
 
 	eosConfig := eventSource.source.config.EosConfig
 
@@ -250,7 +250,7 @@ func (pw *partitionWorker[T]) acquirePending() bool {
 	}
 }
 
-func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(), commitLog *eosCommitLog) {
+func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func() bool, commitLog *eosCommitLog) {
 	elapsed := sincer{time.Now()}
 	// the partition is not ready to receive events as it is still bootstrapping the state store.
 	// in the case where this partition was assigned due to a failure on another consumer, this could be a lengthy process
@@ -263,8 +263,9 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	// this function will block until all changelogs for this partition are populated
 	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
 	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
-	waiter()
-	if !atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerReady) {
+	// if the state store could not be populated, we are shutting down, or this partition has been revoked
+	populated := waiter()
+	if !populated || !atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerReady) {
 		log.Debugf("partitionWorker for %+v was revoked before it was activated", pw.topicPartition)
 		return
 	}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 253179a..8c1082e 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -141,9 +141,15 @@ func (sc *eventSourceConsumer[T]) Client() *kgo.Client {
 // Needed to fulfill the IncrRebalanceInstructionHandler interface defined by IncrementalGroupRebalancer.
 // Should NOT be invoked directly.
 func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
 	partition := tp.Partition
+	if _, ok := sc.workers[partition]; ok {
+		log.Debugf("%+v was assigned before it could be prepared", tp)
+		return
+	}
 	if _, ok := sc.prepping[partition]; !ok {
 		store := sc.partitionedStore.assign(partition)
 
@@ -154,7 +160,10 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			log.Debugf("prepping %+v", tp)
 
 			<-sc.started // the balancer needs our client
-			ssp.sync()
+			if !ssp.sync() {
+				log.Debugf("cancelled prep of %+v", tp)
+				return
+			}
 			processed := ssp.processed()
 			duration := time.Since(start)
 
@@ -184,6 +193,7 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 	defer sc.preppingMux.Unlock()
 	if _, ok := sc.prepping[tp.Partition]; ok {
 		sc.stateStoreConsumer.cancelPartition(tp.Partition)
+		sc.partitionedStore.revoke(tp.Partition) // if it is assigned later on, we'll need to start over
 		delete(sc.prepping, tp.Partition)
 	} else {
 		// what to do? probably nothing, but if we have a double assignment, we could have problems
@@ -208,17 +218,11 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		if prepper, ok := sc.prepping[p]; ok {
 			log.Infof("syncing prepped partition %+v", prepper.topicPartition)
 			delete(sc.prepping, p)
-			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
-				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
-			})
+			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.sync)
 		} else if _, ok := sc.workers[p]; !ok {
 			prepper = sc.stateStoreConsumer.activatePartition(p, store)
 			log.Infof("syncing unprepped partition %+v", prepper.topicPartition)
-			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
-				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
-			})
+			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.sync)
 		}
 
 	}
@@ -249,6 +253,7 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 		worker.waitUntilClosed()
 	}
 	for _, p := range partitions {
+		sc.stateStoreConsumer.cancelPartition(p) // only of consequence if the worker was not active yet
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..ec69c6d 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -35,6 +35,7 @@ const (
 	active
 )
 const markerKeyString = "gkes__mark"
+const markerRetryInterval = time.Second
 
 var markerKey = []byte(markerKeyString)
 var startEpochOffset = kgo.EpochOffset{
@@ -47,8 +48,12 @@ type StateStore interface {
 	Revoked()
 }
 
+// Populates a StateStore from the change log. A stateStorePartition is used once: preparing (or activating) the partition
+// again replaces it.
 type stateStorePartition[T StateStore] struct {
 	buffer         chan []*kgo.Record
+	done           chan struct{} // closed when the StateStore is fully populated, or population has been cancelled
+	exited         chan struct{} // closed when the StateStore will receive no further changes
 	client         *kgo.Client
 	waiters        map[string]chan struct{}
 	topicPartition TopicPartition
@@ -56,11 +61,28 @@ type stateStorePartition[T StateStore] struct {
 	count          uint64
 	byteCount      uint64
 	waiterLock     sync.Mutex
-	highWatermark  int64
+	doneOnce       sync.Once
+	complete       func(*stateStorePartition[T])
+}
+
+func newStateStorePartition[T StateStore](client *kgo.Client, tp TopicPartition, complete func(*stateStorePartition[T])) *stateStorePartition[T] {
+	return &stateStorePartition[T]{
+		topicPartition: tp,
+		waiters:        make(map[string]chan struct{}, 2),
+		client:         client,
+		state:          paused,
+		buffer:         make(chan []*kgo.Record, 1024),
+		done:           make(chan struct{}),
+		exited:         make(chan struct{}),
+		complete:       complete,
+	}
 }
 
 func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
-	ssp.buffer <- ftp.FetchPartition.Records
+	select {
+	case ssp.buffer <- ftp.FetchPartition.Records:
+	case <-ssp.done:
+	}
 }
 
 func (ssp *stateStorePartition[T]) pause() {
@@ -74,10 +96,7 @@ func (ssp *stateStorePartition[T]) pause() {
 }
 
 func (ssp *stateStorePartition[T]) kill() {
-	if ssp.buffer != nil {
-		close(ssp.buffer)
-		ssp.buffer = nil
-	}
+	ssp.doneOnce.Do(func() { close(ssp.done) })
 }
 
 func (ssp *stateStorePartition[T]) cancel() {
@@ -105,10 +124,33 @@ func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (chan struct
 	return nil, false
 }
 
-func (ssp *stateStorePartition[T]) sync() {
+// Blocks until all changes which are in the change log at the time of the call have been received by the StateStore.
+// Returns false if this will not happen because population was cancelled.
+func (ssp *stateStorePartition[T]) sync() bool {
 	c, mark := ssp.addWaiter()
-	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
-	<-c
+	for {
+		err := sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
+		if err == nil {
+			break
+		}
+		log.Errorf("could not send marker message to %+v: %v", ssp.topicPartition, err)
+		select {
+		case <-ssp.done:
+			return false
+		case <-time.After(markerRetryInterval):
+		}
+	}
+	select {
+	case <-c:
+		return true
+	case <-ssp.done:
+	}
+	select {
+	case <-c:
+		return true
+	default:
+		return false
+	}
 }
 
 func (ssp *stateStorePartition[T]) processed() uint64 {
@@ -129,9 +171,6 @@ func (ssp *stateStorePartition[T]) setState(state partitionState) {
 
 func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store changeLogPartition[T]) {
 	ssp.setState(intitialState)
-	ssp.count = 0
-	ssp.byteCount = 0
-	ssp.buffer = make(chan []*kgo.Record, 1024)
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
@@ -156,24 +195,45 @@ func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool
 	case ready:
 		log.Debugf("transitioning from ready to paused for %+v", ssp.topicPartition)
 		complete = true
-		ssp.cancel()
 	}
 	close(waiter)
+	if complete {
+		ssp.complete(ssp)
+	}
 	return
 }
 
 func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
 	log.Debugf("starting populator for %+v", ssp.topicPartition)
-	for records := range ssp.buffer {
-		if !ssp.handleRecordsAndContinue(records, store) {
-			log.Debugf("closed populator for %+v", ssp.topicPartition)
+	defer close(ssp.exited)
+	for {
+		select {
+		case records := <-ssp.buffer:
+			if !ssp.handleRecordsAndContinue(records, store) {
+				log.Debugf("closed populator for %+v", ssp.topicPartition)
+				return
+			}
+		case <-ssp.done:
+			log.Debugf("cancelled populator for %+v", ssp.topicPartition)
 			return
 		}
 	}
 }
 
+func (ssp *stateStorePartition[T]) isDone() bool {
+	select {
+	case <-ssp.done:
+		return true
+	default:
+		return false
+	}
+}
+
 func (ssp *stateStorePartition[T]) handleRecordsAndContinue(records []*kgo.Record, store changeLogPartition[T]) bool {
 	for _, record := range records {
+		if ssp.isDone() {
+			return false
+		}
 		if isMarkerRecord(record) {
 			if ssp.isCompletionMarker(record.Value) {
 				return false
@@ -227,14 +287,7 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 	})
 
 	for i := int32(0); i < partitionCount; i++ {
-		stateStorePartitions[i] = &stateStorePartition[T]{
-			topicPartition: TopicPartition{Partition: i, Topic: topic},
-			waiters:        make(map[string]chan struct{}, 2),
-			client:         client,
-			state:          paused,
-			buffer:         make(chan []*kgo.Record, 1024),
-			highWatermark:  -1,
-		}
+		stateStorePartitions[i] = newStateStorePartition[T](client, ntp(i, topic), nil)
 	}
 	ssc := &stateStoreConsumer[T]{
 		runStatus:  runStatus,
@@ -261,10 +314,7 @@ func (ssc *stateStoreConsumer[T]) consume() {
 			}
 		}
 		f.EachPartition(func(partitionFetch kgo.FetchTopicPartition) {
-			ssp := ssc.partitions[partitionFetch.Partition]
-			if ssp.partitionState() == paused {
-				ssp.pause()
-			} else {
+			if ssp := ssc.fetching(partitionFetch.Partition); ssp != nil {
 				ssp.add(partitionFetch)
 			}
 		})
@@ -274,29 +324,58 @@ func (ssc *stateStoreConsumer[T]) consume() {
 	ssc.client.Close()
 }
 
-func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
+// Returns nil, and makes sure that the partition is not fetched any longer, if there is nothing to populate.
+func (ssc *stateStoreConsumer[T]) fetching(p int32) *stateStorePartition[T] {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
 	ssp := ssc.partitions[p]
-	ssp.cancel()
+	if ssp.partitionState() == paused {
+		ssp.pause()
+		return nil
+	}
+	return ssp
 }
 
-func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+// Invoked by the stateStorePartition once the StateStore is fully populated.
+func (ssc *stateStoreConsumer[T]) complete(ssp *stateStorePartition[T]) {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
+	if ssc.partitions[ssp.topicPartition.Partition] == ssp {
+		ssp.cancel()
+	}
+}
+
+// Stops populating the StateStore, which will receive no further changes when this call returns.
+func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
+	ssc.mux.Lock()
 	ssp := ssc.partitions[p]
-	ssp.prep(prepping, store)
-	return ssp
+	if ssp.partitionState() == paused {
+		ssc.mux.Unlock()
+		return
+	}
+	ssp.cancel()
+	ssc.mux.Unlock()
+	<-ssp.exited
 }
 
-func (ssc *stateStoreConsumer[T]) activatePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+func (ssc *stateStoreConsumer[T]) populatePartition(p int32, initialState partitionState, store changeLogPartition[T]) *stateStorePartition[T] {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.prep(ready, store)
+	ssc.partitions[p].kill()
+	ssp := newStateStorePartition(ssc.client, ntp(p, ssc.topic), ssc.complete)
+	ssc.partitions[p] = ssp
+	ssp.prep(initialState, store)
 	return ssp
 }
 
+func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+	return ssc.populatePartition(p, prepping, store)
+}
+
+func (ssc *stateStoreConsumer[T]) activatePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+	return ssc.populatePartition(p, ready, store)
+}
+
 func (ssc *stateStoreConsumer[T]) stop() {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-- 
2.43.0


From b5df45ddce801147cad410b4c7c7c47c7ea13ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 05/33] fix: force a flush when a batch has more than
 MaxBatchSize items

The item count of a transaction is the number of produced records, which may
step over MaxBatchSize. The flush was never forced in that case, and the
transaction kept growing.
---
 streams/eos_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 1b8805a..554165f 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -191,7 +191,7 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From 505a2682edd6f3b37a1ee1df64370a4072ff3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 06/33] fix: use the default DeserializationErrorHandler only
 if none is configured

---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index 236c86b..5b726c9 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -148,7 +148,7 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
+	if s.config.DeserializationErrorHandler == nil {
 		return DefaultDeserializationErrorHandler
 	}
 	return s.config.DeserializationErrorHandler
-- 
2.43.0


From 95f836414dfa64da0fd996cb354d885cfd7d452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 07/33] fix: use the retrieved credentials for IAM
 authentication

---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..7b93f35 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -168,7 +168,7 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From 542b06eb65c6397a4cac78dc97ab4da1e79913f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 08/33] fix: SimpleStore must keep the changes which could be
 decoded, not the others

---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From bd11669fe0d61124010a49b297b4e5a7f9848463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 09/33] fix: BatchProducer must complete the event without
 records or callback

An event which was handed to a BatchProducer with no records, or with a nil
callback, was never completed, so that its transaction timed out.
---
 streams/producer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..2eb7815 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -133,13 +133,16 @@ func (b *produceBatcher[S]) cleanup() {
 }
 
 func (b *produceBatcher[S]) recordComplete() {
-	if atomic.AddInt64(&b.pending, -1) == 0 && b.callback != nil {
+	if atomic.AddInt64(&b.pending, -1) == 0 {
 		b.ctx.AsyncJobComplete(b.executeCallback)
 	}
 }
 
 func (b *produceBatcher[S]) executeCallback() ExecutionState {
-	state := b.callback(b.ctx, b.records, b.userData)
+	state := Complete
+	if b.callback != nil {
+		state = b.callback(b.ctx, b.records, b.userData)
+	}
 	b.cleanup()
 	return state
 }
@@ -150,6 +153,13 @@ func (b *produceBatcher[S]) executeCallback() ExecutionState {
 // It is important to note that GKES uses a Record pool. After the transaction has completed for this record, it is returned to the pool for reuse.
 // Your application should not hold on to references to the Record(s) after BatchProducerCallback has been invoked.
 func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb BatchProducerCallback[S], userData any) ExecutionState {
+	if len(records) == 0 {
+		// nothing to wait for
+		if cb == nil {
+			return Complete
+		}
+		return cb(ec, records, userData)
+	}
 	b := &produceBatcher[S]{
 		ctx:      ec,
 		records:  records,
-- 
2.43.0


From f40bb27cf916c350a2df3a5239e82fba96edc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 10/33] fix: retry commit log markers which could not be
 produced

lastProcessed waited forever for a marker that was never written.
---
 streams/commit_log.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/streams/commit_log.go b/streams/commit_log.go
index 631dd70..5a41df8 100644
--- a/streams/commit_log.go
+++ b/streams/commit_log.go
@@ -16,11 +16,14 @@ package streams
 
 import (
 	"bytes"
+	"errors"
 	"sync"
+	"time"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/uuid"
+	"github.com/twmb/franz-go/pkg/kgo"
 )
 
 type eosCommitLog struct {
@@ -130,7 +133,17 @@ func (cl *eosCommitLog) syncCommitLogPartition(tp TopicPartition) {
 	markWaiter.Add(1)
 	cl.pendingSyncs[mark] = markWaiter
 	cl.syncMux.Unlock()
-	sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
+	for {
+		err := sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
+		if err == nil {
+			break
+		}
+		log.Errorf("could not send marker message to %+v: %v", tp, err)
+		if errors.Is(err, kgo.ErrClientClosed) {
+			return // shutting down
+		}
+		time.Sleep(markerRetryInterval)
+	}
 	markWaiter.Wait()
 }
 
-- 
2.43.0


From e1aa08634a92053bb9ae1a6ec441970a6a1cf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 11/33] fix: a partition is ready only if it is still being
 prepared

PartitionPrepared advertised partitions as ready which in the meantime had
been assigned to this very member, or which it had been told to forget. Such a
partition stays in receivership forever, and the group is never balanced again.
---
 streams/incr_rebalancer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..bbc5ff7 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -295,7 +295,10 @@ func IncrementalRebalancer(instructionHandler IncrRebalanceInstructionHandler) I
 func (ir *incrementalRebalancer) PartitionPrepared(tp TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	ir.preparing.Remove(tp)
+	if !ir.preparing.Remove(tp) {
+		// in the meantime it was assigned to us, or we were told to forget it
+		return
+	}
 	ir.ready.Insert(tp)
 	go ir.client().ForceRebalance()
 }
@@ -407,6 +410,7 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 		wg := &sync.WaitGroup{}
 		wg.Add(len(instructions.Forget))
 		for _, tp := range instructions.Forget {
+			tp := tp
 			prepping := ir.preparing.Remove(tp)
 			prepped := ir.ready.Remove(tp)
 			if prepping || prepped {
-- 
2.43.0


From ba42c4184da15c7660e9da70a93eb09b43dcd976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 12/33] fix: interjections always resolve

The channel returned by Interject was never resolved if the partition was
revoked before the interjection was executed, and workerMux was held while
waiting for a full queue, blocking every other partition. Also schedule the
next run of an interjection which completes asynchronously.
---
 streams/interjection.go     |  2 +-
 streams/partition_worker.go | 36 ++++++++++++++++++++++++++++++++++++
 streams/source_consumer.go  | 12 ++++++++----
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/streams/interjection.go b/streams/interjection.go
index 6bc282f..244aefe 100644
--- a/streams/interjection.go
+++ b/streams/interjection.go
@@ -63,7 +63,7 @@ func (ij *interjection[T]) timerDuration() time.Duration {
 
 // schedules the next interjection
 func (ij *interjection[T]) tick() {
-	if ij.isOneOff {
+	if ij.isOneOff || ij.cancelled {
 		return
 	}
 	delay := ij.timerDuration()
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 5c1a661..6cce0b4 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -178,6 +178,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
 			close(pw.closed)
+			pw.abandonInterjections()
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
 		}
@@ -220,6 +221,38 @@ func (pw *partitionWorker[T]) interleaveInterjection() {
 	}
 }
 
+// Queues a one-off interjection. If it can not be executed any more, it's callback is invoked.
+func (pw *partitionWorker[T]) interject(inter *interjection[T]) {
+	select {
+	case pw.interjectionInput <- inter:
+	case <-pw.runStatus.Done():
+		inter.callback()
+		return
+	}
+	select {
+	case <-pw.closed:
+		pw.abandonInterjections()
+	default:
+	}
+}
+
+// Closes off the interjections which are still queued once the worker is closed.
+func (pw *partitionWorker[T]) abandonInterjections() {
+	for {
+		var inter *interjection[T]
+		select {
+		case inter = <-pw.interjectionInput:
+		case ec := <-pw.interjectionEventInput:
+			inter = ec.interjection
+		default:
+			return
+		}
+		if inter.callback != nil {
+			inter.callback()
+		}
+	}
+}
+
 func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	if pw.isRevoked() {
 		if inter.callback != nil {
@@ -318,6 +351,9 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if job.ctx.IsInterjection() {
+			job.ctx.interjection.tick()
+		}
 	}
 }
 
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 8c1082e..1f29f5e 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -315,9 +315,9 @@ func (sc *eventSourceConsumer[T]) start() {
 // Inserts the interjection into the appropriate partition workers interjectionChannel. Returns immediately if the partiotns is not currently assigned.
 func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T]) <-chan error {
 	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
-	c := make(chan error, 1)
 	w := sc.workers[partition]
+	sc.workerMux.Unlock()
+	c := make(chan error, 1)
 	if w == nil {
 		c <- ErrPartitionNotAssigned
 		return c
@@ -326,7 +326,7 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 		c <- ErrPartitionNotAssigned
 		return c
 	}
-	w.interjectionInput <- &interjection[T]{
+	w.interject(&interjection[T]{
 		isOneOff:       true,
 		topicPartition: w.topicPartition,
 		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
@@ -334,7 +334,11 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 			close(c)
 			return state
 		},
-	}
+		callback: func() {
+			// the partition was revoked before the interjection could be executed
+			c <- ErrPartitionNotAssigned
+		},
+	})
 	return c
 }
 
-- 
2.43.0


From 914c8dada758e8b6678615bc3e86f68144a9fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 13/33] fix: metrics never block processing

A MetricsHandler which is slow, or the closing of the metrics channel when the
EventSource is stopped, blocked the commit loop and partition preparation, or
made them panic.
---
 streams/eos_producer.go    |  6 +++---
 streams/event_source.go    | 10 ++--------
 streams/metric.go          | 12 ++++++++++++
 streams/source_consumer.go | 22 ++++++++++------------
 4 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 554165f..3d508ed 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -430,8 +430,8 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
-	if p.metrics != nil && p.produceCnt > 0 {
-		p.metrics <- Metric{
+	if p.produceCnt > 0 {
+		emitMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
 			GroupId:        p.source.GroupId(),
@@ -442,7 +442,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Bytes:          int(p.byteCount),
 			PartitionCount: partitionCount,
 			Partition:      -1,
-		}
+		})
 	}
 	p.produceCnt = 0
 	p.eventContextCnt = 0
diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..cd1ddf1 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -117,13 +117,7 @@ func (es *EventSource[T]) closeOnFail() {
 }
 
 func (es *EventSource[T]) EmitMetric(m Metric) {
-	if es.metrics != nil {
-		select {
-		case es.metrics <- m:
-		default:
-			log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
-		}
-	}
+	emitMetric(es.metrics, m)
 }
 
 func (es *EventSource[T]) emitMetrics() {
@@ -139,7 +133,7 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
+			// metrics can't be closed, there may be other go routines still emitting
 			return
 		}
 	}
diff --git a/streams/metric.go b/streams/metric.go
index 60a927f..90a28d6 100644
--- a/streams/metric.go
+++ b/streams/metric.go
@@ -43,3 +43,15 @@ func (m Metric) Linger() time.Duration {
 func (m Metric) ExecuteDuration() time.Duration {
 	return m.EndTime.Sub(m.ExecuteTime)
 }
+
+// never blocks, a slow MetricsHandler must not affect processing
+func emitMetric(metrics chan Metric, m Metric) {
+	if metrics == nil {
+		return
+	}
+	select {
+	case metrics <- m:
+	default:
+		log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
+	}
+}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 1f29f5e..68d815b 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -170,18 +170,16 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			log.Debugf("Prepped %+v, %d messages in %v (tps: %d)",
 				tp, processed, duration, int(float64(processed)/duration.Seconds()))
 			sc.incrBalancer.PartitionPrepared(tp)
-			if sc.metrics != nil {
-				sc.metrics <- Metric{
-					Operation:      PartitionPreppedOperation,
-					StartTime:      start,
-					EndTime:        time.Now(),
-					PartitionCount: 1,
-					Partition:      partition,
-					Count:          int(processed),
-					Bytes:          int(ssp.processedBytes()),
-					GroupId:        sc.source.GroupId(),
-				}
-			}
+			emitMetric(sc.metrics, Metric{
+				Operation:      PartitionPreppedOperation,
+				StartTime:      start,
+				EndTime:        time.Now(),
+				PartitionCount: 1,
+				Partition:      partition,
+				Count:          int(processed),
+				Bytes:          int(ssp.processedBytes()),
+				GroupId:        sc.source.GroupId(),
+			})
 		}()
 	}
 }
-- 
2.43.0


From 485ab1eef9feb03de7fd97d6fdcdb1b09d790264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 14/33] fix: complete placeholders of the AsyncBatcher in order

The callback of a BatchItems without items was invoked after those of all other
items in the batch, including later ones with the same key. Its key was also
never released.
---
 streams/async_batcher.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/streams/async_batcher.go b/streams/async_batcher.go
index 8c5ea53..be4614e 100644
--- a/streams/async_batcher.go
+++ b/streams/async_batcher.go
@@ -123,29 +123,28 @@ const (
 
 type asyncBatchExecutor[S any, K comparable, V any] struct {
 	items      []*BatchItem[K, V]
-	noops      []*BatchItems[S, K, V]
+	queue      []*BatchItem[K, V] // items and placeholders, in the order they were added
 	state      asyncBatchState
 	flushTimer *time.Timer
 }
 
 func (b *asyncBatchExecutor[S, K, V]) add(item *BatchItem[K, V]) {
-	if item.itemType == placeholder {
-		b.noops = append(b.noops, (*BatchItems[S, K, V])(item.batch))
-	} else {
+	b.queue = append(b.queue, item)
+	if item.itemType != placeholder {
 		b.items = append(b.items, item)
 	}
 }
 
 func (b *asyncBatchExecutor[S, K, V]) reset(assignments map[K]*asyncBatchExecutor[S, K, V]) {
-	for i, item := range b.items {
-		delete(assignments, item.key)
+	for i := range b.items {
 		b.items[i] = nil
 	}
-	for i := range b.noops {
-		b.noops[i] = nil
+	for i, item := range b.queue {
+		delete(assignments, item.key)
+		b.queue[i] = nil
 	}
 	b.items = b.items[0:0]
-	b.noops = b.noops[0:0]
+	b.queue = b.queue[0:0]
 	b.state = batcherReady
 }
 
@@ -244,7 +243,7 @@ func (ab *AsyncBatcher[S, K, V]) addToExecutor(item *BatchItem[K, V], executor *
 	ab.assignments[item.key] = executor
 	executor.add(item)
 
-	if len(executor.items)+len(executor.noops) == ab.maxBatchSize {
+	if len(executor.queue) == ab.maxBatchSize {
 		ab.conditionallyExecuteBatch(executor)
 	} else if executor.flushTimer == nil {
 		executor.flushTimer = time.AfterFunc(ab.batchDelay, func() {
@@ -270,18 +269,20 @@ func (ab *AsyncBatcher[S, K, V]) conditionallyExecuteBatch(executor *asyncBatchE
 
 func (ab *AsyncBatcher[S, K, V]) completeBatchItems(items []*BatchItem[K, V]) {
 	for _, item := range items {
-		batchFor[S, K, V](item.batch).completeItem()
+		batch := batchFor[S, K, V](item.batch)
+		if item.itemType == placeholder {
+			batch.eventContext.AsyncJobComplete(batch.executeCallback)
+		} else {
+			batch.completeItem()
+		}
 	}
 }
 
 func (ab *AsyncBatcher[S, K, V]) executeBatch(executor *asyncBatchExecutor[S, K, V]) {
 	if len(executor.items) > 0 {
 		ab.executor(executor.items)
-		ab.completeBatchItems(executor.items)
-	}
-	for _, b := range executor.noops {
-		b.eventContext.AsyncJobComplete(b.executeCallback)
 	}
+	ab.completeBatchItems(executor.queue)
 	ab.mux.Lock()
 	ab.executingCount--
 	executor.reset(ab.assignments)
-- 
2.43.0


From 2b9e00e53743f75119e7bc45292d575ce85e71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 15/33] fix: AsyncJobScheduler could lose sight of a queued job

An item which was added to the channel by a blocked caller after the head of
the queue had been consumed was not visible to peek(). The job was not
processed until the next one for the same key arrived, and all workers were
spinning in the meantime.
---
 streams/async_item_queue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..dc1d877 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,9 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable && !aiq.backfill() {
+		return aiq.emptyItem, false
+	}
 	return aiq.head, aiq.peekable
 }
 
-- 
2.43.0


From ac0aa47fbaddabb1b18fd42829caacc6e9e48bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 16/33] fix: a job refused by a halted AsyncJobScheduler is not
 Complete

The transaction of this event was committed without the job being processed.
---
 streams/async_scheduler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..e30e339 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -230,7 +230,7 @@ func (ap *AsyncJobScheduler[S, K, V]) newQueue() interface{} {
 // Schedules the value for processing in order by key. The finalizer will be invoked once processing is complete.
 func (ap *AsyncJobScheduler[S, K, V]) Schedule(ec *EventContext[S], key K, value V) ExecutionState {
 	if ap.isClosed() {
-		return Complete
+		return Incomplete // it will not be processed
 	}
 	ap.scheduleItem(asyncJobContainer[S, K, V]{
 		eventContext: ec,
-- 
2.43.0


From a548654a93aac4889f04c122ebae0513f41cee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 17/33] fix: AsyncJobScheduler releases all callers waiting for
 a key

Callers waiting for MaxConcurrentKeys were stuck when the scheduler was halted,
and could miss capacity freed by concurrent jobs or SetMaxConcurrentKeys.
Growing MaxConcurrentKeys after shrinking it could lose queued keys.
---
 streams/async_scheduler.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index e30e339..a54d12a 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -246,11 +246,13 @@ func (ap *AsyncJobScheduler[S, K, V]) scheduleItem(item asyncJobContainer[S, K,
 	var w *worker[S, K, V] = nil
 	var created bool
 	added := false
+	waited := false
 	for w == nil {
 		ap.mux.Lock()
 		w, created = ap.grabWorker(item.key)
 		if w == nil {
 			ap.mux.Unlock()
+			waited = true
 			// wait until a worker thread finshes processing and try again
 			ap.waitForWorker()
 			if ap.isClosed() {
@@ -269,6 +271,10 @@ func (ap *AsyncJobScheduler[S, K, V]) scheduleItem(item asyncJobContainer[S, K,
 
 	*/
 	added = w.tryAddItem(item)
+	if waited && len(ap.workerMap) < ap.maxConcurrentKeys {
+		// signals are not counted, if there is still room pass it on to the next caller
+		ap.workerAvailable()
+	}
 	ap.mux.Unlock()
 
 	if !added {
@@ -312,17 +318,17 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 	ap.updateRWLock.Lock()
 	defer ap.updateRWLock.Unlock()
 	// this does not actually increase the number of workers, just makes room in the pending worker channel
-	prevMaxKeys := ap.maxConcurrentKeys
-
 	// lock here as grabWorker() uses this value, locked in release/scheduleWorker
 	ap.mux.Lock()
 	ap.maxConcurrentKeys = SchedulerConfig{MaxConcurrentKeys: size}.concurrentKeys()
 	ap.mux.Unlock()
-	ap.ensureWorkerChannelCapacity(size, prevMaxKeys)
+	ap.ensureWorkerChannelCapacity(size)
+	ap.workerAvailable() // there may be room for a waiting caller now
 }
 
-func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize int) {
+	// the channel does not shrink, its capacity may be greater than the previous maxConcurrentKeys
+	if newSize >= cap(ap.workerChannel) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
@@ -349,7 +355,10 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) waitForWorker() {
-	<-ap.workerFreeSignal
+	select {
+	case <-ap.workerFreeSignal:
+	case <-ap.runStatus.Done():
+	}
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) workerAvailable() {
-- 
2.43.0


From 1cdfcd814fdd6c0e0152f42e53f8f8eff408c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 18/33] fix: topic creation must report failures and describe
 what exists

---
 streams/source.go |   3 ++
 streams/topics.go | 132 +++++++++++++++++++++++++++++++---------------
 2 files changed, 92 insertions(+), 43 deletions(-)

diff --git a/streams/source.go b/streams/source.go
index 5b726c9..d525f44 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -217,6 +217,9 @@ func minInSyncConfig(source *Source) int {
 	if factor <= 1 {
 		return 1
 	}
+	if source.config.MinInSync <= 0 {
+		return 1
+	}
 	if source.config.MinInSync >= int(factor) {
 		return source.config.ReplicationFactor - 1
 	}
diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..eeb050a 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -25,6 +25,7 @@ import (
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/btree"
 	"github.com/twmb/franz-go/pkg/kadm"
+	"github.com/twmb/franz-go/pkg/kerr"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -130,7 +131,49 @@ func NewClient(cluster Cluster, options ...kgo.Opt) (*kgo.Client, error) {
 func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, replicationFactor int16, config map[string]*string, topic ...string) error {
 	res, err := adminClient.CreateTopics(context.Background(), numPartitions, replicationFactor, config, topic...)
 	log.Infof("createTopic res: %+v, err: %v", res, err)
-	return err
+	if err != nil {
+		return err
+	}
+	for _, t := range res {
+		if t.Err != nil && !errors.Is(t.Err, kerr.TopicAlreadyExists) {
+			return t.Err
+		}
+	}
+	return nil
+}
+
+const topicRetryCount = 20
+const topicRetryInterval = 250 * time.Millisecond
+
+// Creates the topic if it does not exist. In any case, returns the details of what is actually there,
+// as another application instance may be creating the same topic with a different configuration.
+func resolveOrCreateTopic(adminClient *kadm.Client, topic string, create func() error) (kadm.TopicDetail, error) {
+	created := false
+	for retryCount := 0; ; retryCount++ {
+		res, err := adminClient.ListTopicsWithInternal(context.Background(), topic)
+		if err != nil {
+			return kadm.TopicDetail{}, err
+		}
+		detail, ok := res[topic]
+		if ok && detail.Err == nil {
+			return detail, nil
+		}
+		if !ok {
+			detail.Err = kerr.UnknownTopicOrPartition
+		}
+		missing := errors.Is(detail.Err, kerr.UnknownTopicOrPartition)
+		if !kerr.IsRetriable(detail.Err) || retryCount == topicRetryCount {
+			return kadm.TopicDetail{}, fmt.Errorf("could not resolve topic %s: %w", topic, detail.Err)
+		}
+		if missing && !created {
+			if err = create(); err != nil {
+				return kadm.TopicDetail{}, err
+			}
+			created = true
+			continue
+		}
+		time.Sleep(topicRetryInterval) // not all brokers are aware of it yet
+	}
 }
 
 func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor int, minInsync int, cleanupPolicy CleanupPolicy, dirtyRatio float64, topic ...string) error {
@@ -146,14 +189,30 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 
 func createDestination(destination Destination) (Destination, error) {
 	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
 	if err != nil {
 		return destination, err
 	}
+	defer client.Close()
+	adminClient := kadm.NewClient(client)
+	// -1 is the default of the cluster
+	numPartitions, replicationFactor := -1, -1
+	if destination.NumPartitions > 0 {
+		numPartitions = destination.NumPartitions
+	}
+	if destination.ReplicationFactor > 0 {
+		replicationFactor = destination.ReplicationFactor
+	}
+	minInSync := fmt.Sprintf("%d", sak.Max(destination.MinInSync, 1))
+	topic := destination.DefaultTopic
+	detail, err := resolveOrCreateTopic(adminClient, topic, func() error {
+		return createTopicFromConfigMap(adminClient, int32(numPartitions), int16(replicationFactor), map[string]*string{
+			"min.insync.replicas": sak.Ptr(minInSync),
+		}, topic)
+	})
+	if err == nil {
+		destination.NumPartitions = len(detail.Partitions.Numbers())
+		destination.ReplicationFactor = detail.Partitions.NumReplicas()
+	}
 	return destination, err
 }
 
@@ -162,6 +221,8 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 		resolved, err = createDestination(destination)
 		if isNetworkError(err) {
 			time.Sleep(time.Second)
+		} else {
+			break
 		}
 	}
 	return
@@ -195,7 +256,7 @@ func isNetworkError(err error) bool {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
 	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
+		log.Errorf("non network error: %v", err)
 	}
 	return false
 }
@@ -230,52 +291,37 @@ func resolveOrCreateTopics(source *Source, sourceTopicAdminClient, eosAdminClien
 	topic := source.Topic()
 	commitLogName := source.CommitLogTopicNameForGroupId()
 	changLogName := source.StateStoreTopicName()
-	res, err := sourceTopicAdminClient.ListTopicsWithInternal(context.Background(), topic)
+	val, err := resolveOrCreateTopic(sourceTopicAdminClient, topic, func() error {
+		return createTopic(sourceTopicAdminClient, source.NumPartitions(),
+			replicationFactorConfig(source), minInSyncConfig(source), DeleteCleanupPolicy, 1, topic)
+	})
 	if err != nil {
 		return nil, err
 	}
-	if val, ok := res[topic]; ok && val.Err == nil {
-		source.config.NumPartitions = len(val.Partitions.Numbers())
-		source.config.ReplicationFactor = val.Partitions.NumReplicas()
-	} else {
-		err = createTopic(sourceTopicAdminClient, source.NumPartitions(),
-			replicationFactorConfig(source), minInSyncConfig(source), DeleteCleanupPolicy, 1, topic)
-		if err != nil {
-			return nil, err
-		}
-	}
+	source.config.NumPartitions = len(val.Partitions.Numbers())
+	source.config.ReplicationFactor = val.Partitions.NumReplicas()
 
-	topics := []string{commitLogName}
-	if len(changLogName) > 0 {
-		topics = append(topics, changLogName)
-	}
-	res, err = eosAdminClient.ListTopicsWithInternal(context.Background(), topics...)
+	val, err = resolveOrCreateTopic(eosAdminClient, commitLogName, func() error {
+		return createTopic(eosAdminClient, commitLogPartitionsConfig(source),
+			replicationFactorConfig(source), minInSyncConfig(source), CompactCleanupPolicy, 0.9, commitLogName)
+	})
 	if err != nil {
 		return nil, err
 	}
-	if val, ok := res[commitLogName]; ok && val.Err == nil {
-		source.config.CommitLogPartitions = len(val.Partitions.Numbers())
-	} else {
-		err = createTopic(eosAdminClient, commitLogPartitionsConfig(source),
-			replicationFactorConfig(source), minInSyncConfig(source), CompactCleanupPolicy, 0.9, commitLogName)
-		if err != nil {
-			return nil, err
-		}
-	}
+	source.config.CommitLogPartitions = len(val.Partitions.Numbers())
 
 	if len(changLogName) > 0 {
-		if val, ok := res[changLogName]; ok && val.Err == nil {
-			changeLogPartitionCount := len(val.Partitions.Numbers())
-			if changeLogPartitionCount != source.config.NumPartitions {
-				return nil, fmt.Errorf("change log partitition count (%d) does not match source topic partition count (%d)",
-					changeLogPartitionCount, source.config.NumPartitions)
-			}
-		} else {
-			err = createTopic(eosAdminClient, source.NumPartitions(),
+		val, err = resolveOrCreateTopic(eosAdminClient, changLogName, func() error {
+			return createTopic(eosAdminClient, source.NumPartitions(),
 				replicationFactorConfig(source), minInSyncConfig(source), CompactCleanupPolicy, 0.5, changLogName)
-			if err != nil {
-				return nil, err
-			}
+		})
+		if err != nil {
+			return nil, err
+		}
+		changeLogPartitionCount := len(val.Partitions.Numbers())
+		if changeLogPartitionCount != source.config.NumPartitions {
+			return nil, fmt.Errorf("change log partitition count (%d) does not match source topic partition count (%d)",
+				changeLogPartitionCount, source.config.NumPartitions)
 		}
 	}
 	return source, nil
-- 
2.43.0


From 146d2877325a86da0b3e40da2306621f717eeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 19/33] fix: stop processing partitions which were lost due to
 a group error

---
 streams/source_consumer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 68d815b..cfc8e3f 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -77,6 +77,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		kgo.ConsumeTopics(source.config.Topic),
 		kgo.OnPartitionsAssigned(sc.partitionsAssigned),
 		kgo.OnPartitionsRevoked(sc.partitionsRevoked),
+		kgo.OnPartitionsLost(sc.partitionsRevoked), // otherwise we would keep processing what is no longer ours
 		kgo.SessionTimeout(6 * time.Second),
 		kgo.FetchMaxWait(time.Second),
 		kgo.AdjustFetchOffsetsFn(sc.adjustOffsetsBeforeAssign)}
-- 
2.43.0


From 81aedce5e39f33b7c17cc8484e6a39f880709391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 20/33] fix: execute events and interjections in the order they
 were handed to the producer pool

With two input channels, a worker could pick an item which still waits for a
producerNode while an earlier one, which is part of a transaction waiting to be
committed, was queued on the other channel. Once the pool is exhausted neither
can proceed, and the consumer fails after the transaction times out.
---
 streams/partition_worker.go | 62 +++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 6cce0b4..7c3e5fc 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -71,24 +71,23 @@ const (
 )
 
 type partitionWorker[T StateStore] struct {
-	eosProducer            *eosProducerPool[T]
-	partitionInput         chan []*kgo.Record
-	maxPending             chan struct{}
-	interjectionInput      chan *interjection[T]
-	eventInput             chan *EventContext[T]
-	interjectionEventInput chan *EventContext[T]
-	asyncCompleter         asyncCompleter[T]
-	stopSignal             chan struct{}
-	revokedSignal          chan struct{}
-	stopped                chan struct{}
-	closed                 chan struct{}
-	changeLog              changeLogPartition[T]
-	eventSource            *EventSource[T]
-	runStatus              sak.RunStatus
-	ready                  int64
-	highestOffset          int64
-	topicPartition         TopicPartition
-	revocationWaiter       sync.WaitGroup
+	eosProducer       *eosProducerPool[T]
+	partitionInput    chan []*kgo.Record
+	maxPending        chan struct{}
+	interjectionInput chan *interjection[T]
+	eventInput        chan *EventContext[T]
+	asyncCompleter    asyncCompleter[T]
+	stopSignal        chan struct{}
+	revokedSignal     chan struct{}
+	stopped           chan struct{}
+	closed            chan struct{}
+	changeLog         changeLogPartition[T]
+	eventSource       *EventSource[T]
+	runStatus         sak.RunStatus
+	ready             int64
+	highestOffset     int64
+	topicPartition    TopicPartition
+	revocationWaiter  sync.WaitGroup
 }
 
 func newPartitionWorker[T StateStore](
@@ -118,12 +117,11 @@ func newPartitionWorker[T StateStore](
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
 			closed:    closed,
 		},
-		partitionInput:         make(chan []*kgo.Record, 4),
-		eventInput:             make(chan *EventContext[T], recordsInputSize),
-		interjectionInput:      make(chan *interjection[T], 1),
-		interjectionEventInput: make(chan *EventContext[T], 1),
-		runStatus:              eventSource.runStatus.Fork(),
-		highestOffset:          -1,
+		partitionInput:    make(chan []*kgo.Record, 4),
+		eventInput:        make(chan *EventContext[T], recordsInputSize),
+		interjectionInput: make(chan *interjection[T], 1),
+		runStatus:         eventSource.runStatus.Fork(),
+		highestOffset:     -1,
 	}
 
 	go pw.work(pw.eventSource.interjections, waiter, commitLog)
@@ -242,12 +240,12 @@ func (pw *partitionWorker[T]) abandonInterjections() {
 		var inter *interjection[T]
 		select {
 		case inter = <-pw.interjectionInput:
-		case ec := <-pw.interjectionEventInput:
+		case ec := <-pw.eventInput:
 			inter = ec.interjection
 		default:
 			return
 		}
-		if inter.callback != nil {
+		if inter != nil && inter.callback != nil {
 			inter.callback()
 		}
 	}
@@ -270,7 +268,7 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 		return
 	}
 	pw.eosProducer.addEventContext(ec)
-	pw.interjectionEventInput <- ec
+	pw.eventInput <- ec
 }
 
 // Blocks until another item may be processed, returns false if this will not happen because the producer pool has failed.
@@ -317,9 +315,13 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	for {
 		select {
 		case ec := <-pw.eventInput:
-			pw.handleEvent(ec)
-		case ec := <-pw.interjectionEventInput:
-			pw.handleInterjection(ec)
+			// events and interjections are executed in the order in which they were handed to the producer pool.
+			// waiting for a producer while an item which already has one is queued will deadlock once the pool is exhausted
+			if ec.IsInterjection() {
+				pw.handleInterjection(ec)
+			} else {
+				pw.handleEvent(ec)
+			}
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
 		case <-pw.stopSignal:
-- 
2.43.0


From 15992cd18af391f3cdf6fd29bb6d48662484c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 21/33] fix: distributing unassigned partitions does not use up
 the rebalance budget

No further rebalance follows an unscheduled assignment, so the group stayed imbalanced and leaving members were never drained.
---
 streams/group_state.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index d152003..3733120 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -226,6 +226,7 @@ func (gs groupState) balance(shifts int) bool {
 func (gs groupState) assignToActiveMember(partition int32, recipient *incrGroupMember) {
 	tp := ntp(partition, gs.topic)
 	log.Debugf("assignToActiveMember: %v, partition: %d", recipient, partition)
+	scheduled := recipient.meta.isPreparingOrReadyFor(partition, gs.topic)
 	delete(gs.ready, tp)
 	delete(gs.preparing, tp)
 	gs.activeMembers.Delete(recipient)
@@ -236,8 +237,12 @@ func (gs groupState) assignToActiveMember(partition int32, recipient *incrGroupM
 	recipient.instructions.Prepare = withoutPartition(recipient.instructions.Prepare, partition)
 	gs.activeMembers.ReplaceOrInsert(recipient)
 
-	gs.inReceivership.ReplaceOrInsert(partition)
-	gs.inTransition.ReplaceOrInsert(partition)
+	if scheduled {
+		// the recipient will force another rebalance once it owns the partition, at which time we can move the next.
+		// there is no such rebalance for an unscheduled assignment, so it must not use up our budget
+		gs.inReceivership.ReplaceOrInsert(partition)
+		gs.inTransition.ReplaceOrInsert(partition)
+	}
 }
 
 func (gs groupState) instructActiveMemberToPrepareFor(partition int32, recipient *incrGroupMember) {
-- 
2.43.0


From 6e3caaf7e3f7919424b0e05b9f83ee427c0db25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 22/33] fix: do not assign partitions to a member which has
 already finished leaving the group

---
 streams/group_state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index 3733120..644cef8 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -120,7 +120,7 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 
 	// now that we have initial state set, our sort is stable and we can insrt into our btrees
 	for _, incrMem := range gs.members {
-		if incrMem.meta.Status == InactiveMember {
+		if incrMem.meta.Status != ActiveMember {
 			gs.inactiveMembers.ReplaceOrInsert(incrMem)
 		} else {
 			gs.activeMembers.ReplaceOrInsert(incrMem)
-- 
2.43.0


From f126ab70a7d5444cc52dd3a9622b0ff7411c29db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 23/33] fix: the bytes of a prepped partition's metric cover
 the records it counts

---
 streams/state_store_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index ec69c6d..8af9416 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -244,8 +244,8 @@ func (ssp *stateStorePartition[T]) handleRecordsAndContinue(records []*kgo.Recor
 			// 	log.Errorf("Error receiving change on topic: %s, partition: %d, offset: %d, err: %v",
 			// 		record.Topic, record.Partition, record.Offset, err)
 			// }
+			atomic.AddUint64(&ssp.byteCount, uint64(recordSize(*record))) // first, so that it covers all counted records
 			atomic.AddUint64(&ssp.count, 1)
-			atomic.AddUint64(&ssp.byteCount, uint64(recordSize(*record)))
 		}
 	}
 	return true
-- 
2.43.0


From 10b9d8e6c9000fe477474093d8dcc1fa4786382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 24/33] fix: a partition can not be prepared while it is being
 revoked

---
 streams/source_consumer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index cfc8e3f..6a2b6c7 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -149,6 +149,8 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 	partition := tp.Partition
 	if _, ok := sc.workers[partition]; ok {
 		log.Debugf("%+v was assigned before it could be prepared", tp)
+		// if it is about to be revoked, we'll be instructed to prepare it once more
+		sc.incrBalancer.PartitionPreparationFailed(tp)
 		return
 	}
 	if _, ok := sc.prepping[partition]; !ok {
@@ -237,11 +239,8 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 	sc.workerMux.Lock()
 	for _, p := range partitions {
 		sc.source.onPartitionWillRevoke(p)
-		if worker, ok := sc.workers[p]; ok {
-			if worker.revoke() {
-				active = append(active, worker)
-			}
-			delete(sc.workers, p)
+		if worker, ok := sc.workers[p]; ok && worker.revoke() {
+			active = append(active, worker)
 		}
 	}
 	sc.workerMux.Unlock()
@@ -251,10 +250,13 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 	for _, worker := range active {
 		worker.waitUntilClosed()
 	}
+	sc.workerMux.Lock()
 	for _, p := range partitions {
 		sc.stateStoreConsumer.cancelPartition(p) // only of consequence if the worker was not active yet
 		sc.partitionedStore.revoke(p)
+		delete(sc.workers, p) // not any sooner, the partition must not be prepared in the meantime
 	}
+	sc.workerMux.Unlock()
 	// notify observers
 	sc.source.onPartitionsRevoked(partitions)
 }
-- 
2.43.0


From 68923ee14dc1d8c89a80ba86433642dacc14bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 25/33] fix: a record without a key is not produced with an
 empty key

---
 streams/record.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..d09b002 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -236,7 +236,11 @@ func addRecordTypeHeader(recordType string, record *kgo.Record) {
 // used internally for producing.
 func (r *Record) toKafkaRecord() *kgo.Record {
 
-	r.kRecord.Key = r.keyBuffer.Bytes()
+	// the buffer of a record which was used before is empty, but not nil
+	// a record without a key must not be mistaken for one with an empty key
+	if r.keyBuffer.Len() > 0 {
+		r.kRecord.Key = r.keyBuffer.Bytes()
+	}
 
 	// an empty buffer should be a deletion
 	// not sure if nil === empty for these purposes
-- 
2.43.0


From d8d5a3c6506902ee9a926965022416d03d189afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 26/33] fix: a JSON number is decoded without an error

The decoder of a bare number stops at the end of the input and leaves io.EOF
behind, which JsonCodec.Decode reported: numeric items of a JSON store were
lost when a partition moved and numeric JSON events were undecodable.
---
 streams/codec.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..190d63a 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 	"unsafe"
 
@@ -146,7 +147,11 @@ func (JsonCodec[T]) Decode(b []byte) (T, error) {
 
 	var t T
 	iter.ReadVal(&t)
-	return t, iter.Error
+	// a number is complete only at the end of the input, reaching it is not a failure
+	if iter.Error != nil && iter.Error != io.EOF {
+		return t, iter.Error
+	}
+	return t, nil
 }
 
 type stringCodec struct{}
-- 
2.43.0


From f055e76b8999591cc0960fac11566a9706f1678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 27/33] fix: MSK cluster is looked up by its exact name, on
 every page

---
 msk/cluster.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 7b93f35..4d0f8af 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -215,22 +215,31 @@ func (c *MskCluster) getBootstrapBrokers() (brokers []string, err error) {
 	return
 }
 
+// ClusterNameFilter is a prefix match and results are paginated, so look for the exact name.
 func (c *MskCluster) getClusterArn() (arn string, err error) {
 	var res *kafka.ListClustersOutput
-	if res, err = c.client.ListClusters(context.TODO(), &kafka.ListClustersInput{
+	input := &kafka.ListClustersInput{
 		ClusterNameFilter: aws.String(c.clusterName),
-	}); err != nil {
-		return
-	}
-	if len(res.ClusterInfoList) == 0 {
-		err = fmt.Errorf("cluster not found: %s", c.clusterName)
-		return
 	}
-	ci := res.ClusterInfoList[0]
-	if ci.ClusterArn == nil {
-		err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
-		return
+	for {
+		if res, err = c.client.ListClusters(context.TODO(), input); err != nil {
+			return
+		}
+		for _, ci := range res.ClusterInfoList {
+			if aws.ToString(ci.ClusterName) != c.clusterName {
+				continue
+			}
+			if ci.ClusterArn == nil {
+				err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+				return
+			}
+			arn = *ci.ClusterArn
+			return
+		}
+		if len(aws.ToString(res.NextToken)) == 0 {
+			err = fmt.Errorf("cluster not found: %s", c.clusterName)
+			return
+		}
+		input.NextToken = res.NextToken
 	}
-	arn = *ci.ClusterArn
-	return
 }
-- 
2.43.0


From 693400e88bff836f98603be524aefea5289faadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 28/33] fix: an empty MSK bootstrap string is an error

---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 4d0f8af..ad331e1 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -207,7 +207,7 @@ func (c *MskCluster) getBootstrapBrokers() (brokers []string, err error) {
 	default:
 		bootstrapString = res.BootstrapBrokerString
 	}
-	if bootstrapString == nil {
+	if len(aws.ToString(bootstrapString)) == 0 {
 		err = fmt.Errorf("bootstrap brokers is nil, probably due to mismatched auth type between client and cluster")
 		return
 	}
-- 
2.43.0


From 3aa3caeab3d3de9b8f931af8b71c9c1ed2c4deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 29/33] fix: LexoInt64Codec encodes integers in an order
 preserving way

---
 streams/codec.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index 190d63a..4d6c7da 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -107,9 +107,10 @@ func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
 	if i > 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		// i - math.MinInt64: 0 for the smallest value
+		binary.BigEndian.PutUint64(b[1:], uint64(i)+1<<63)
 	}
 	buf.Write(b[:])
 	return nil
@@ -121,11 +122,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := int64(binary.BigEndian.Uint64(b[1:]))
 	if sign == 1 {
 		return val, nil
 	}
-	return val - math.MaxInt64, nil
+	return val + math.MinInt64, nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From 850e9bb69d5ec05d403d58e817cc752318c8f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 30/33] fix: release everyone who waits for Done, not just the
 first

EventSource.Done() handed out a channel that received a single value: of two
goroutines waiting for it (or a main function in WaitForSignals and anything
else waiting for Done) one blocked forever. Close it instead.
---
 streams/event_source.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index cd1ddf1..02dcb90 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -42,6 +42,7 @@ type EventSource[T StateStore] struct {
 	source            *Source
 	runStatus         sak.RunStatus
 	done              chan struct{}
+	doneOnce          sync.Once
 	metrics           chan Metric
 	stopOnce          sync.Once
 }
@@ -80,7 +81,7 @@ func NewEventSource[T StateStore](sourceConfig EventSourceConfig, stateStoreFact
 		stateStoreFactory: stateStoreFactory,
 		source:            source,
 		runStatus:         sak.NewRunStatus(context.Background()),
-		done:              make(chan struct{}, 1),
+		done:              make(chan struct{}),
 		metrics:           metrics,
 	}
 	es.consumer, err = newEventSourceConsumer(es, additionalClientOptions...)
@@ -258,10 +259,7 @@ func (es *EventSource[T]) Stop() {
 		go func() {
 			<-es.consumer.leave()
 			es.runStatus.Halt() // will close all sub processes (commitLog, stateStoreConsumer)
-			select {
-			case es.done <- struct{}{}:
-			default:
-			}
+			es.signalDone()
 		}()
 	})
 }
@@ -276,10 +274,12 @@ func (es *EventSource[T]) ForkRunStatus() sak.RunStatus {
 func (es *EventSource[T]) StopNow() {
 	es.runStatus.Halt()
 	es.consumer.stop()
-	select {
-	case es.done <- struct{}{}:
-	default:
-	}
+	es.signalDone()
+}
+
+// Releases all who wait for Done(), now and later.
+func (es *EventSource[T]) signalDone() {
+	es.doneOnce.Do(func() { close(es.done) })
 }
 
 /*
-- 
2.43.0


From c83fd9638d39b03995129d2295de9b390000c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 31/33] fix: keep the type and the headers of a record in
 ToKafkaRecord

The type header was added to the record that was copied instead of the copy,
so events produced with another client went to the default handler.
---
 streams/record.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index d09b002..cc4220f 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -268,7 +268,8 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	record.Headers = append(record.Headers, r.kRecord.Headers...)
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
-- 
2.43.0


From 17f83b232e833bd2bb4cfb13044675c27acc0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:36 +0000
Subject: [PATCH 32/33] fix: leave when the group is no longer balanced
 incrementally

A consumer which left gracefully waited for its partitions to be reassigned by
the incremental balancer. When a member which only supports another strategy
joined in the meantime, that never happened, and Stop never finished.
---
 streams/source_consumer.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 6a2b6c7..6c907ba 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -24,6 +24,9 @@ import (
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
+// How often a consumer which waits for its partitions to be reassigned confirms that the group is still balanced incrementally.
+const protocolCheckInterval = 5 * time.Second
+
 // A thick wrapper around a kgo.Client. Handles interaction with IncrementalRebalancer, as well as providing mechanisms for interjecting into a stream.
 type eventSourceConsumer[T StateStore] struct {
 	client             *kgo.Client
@@ -389,6 +392,11 @@ func (sc *eventSourceConsumer[T]) currentProtocolIsIncremental() bool {
 	if len(sc.source.BalanceStrategies()) <= 1 {
 		return true
 	}
+	return sc.currentProtocol() == IncrementalCoopProtocol
+}
+
+// Returns an empty string if the protocol could not be retrieved.
+func (sc *eventSourceConsumer[T]) currentProtocol() string {
 	// we're going to attempt to retrieve the current protocol
 	// this is somehat unrealiable as if the group state is in PreparingRebalance mode,
 	// the protocol returned will be empty
@@ -396,15 +404,14 @@ func (sc *eventSourceConsumer[T]) currentProtocolIsIncremental() bool {
 	groups, err := adminClient.DescribeGroups(context.Background(), sc.source.GroupId())
 	if err != nil || len(groups) == 0 {
 		log.Errorf("could not confirm group protocol: %v", err)
-		return false
+		return ""
 	}
 	log.Debugf("consumerGroup protocol response: %+v", groups)
 	group := groups[sc.source.GroupId()]
 	if len(group.Protocol) == 0 {
 		log.Warnf("could not retrieve group rebalance protocol, group state: %v", group.State)
 	}
-	return group.Protocol == IncrementalCoopProtocol
-
+	return group.Protocol
 }
 
 // Signals the IncrementalReblancer to start the process of shutting down this consumer in an orderly fashion.
@@ -417,13 +424,36 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 		return c
 	}
 	go func() {
-		<-sc.incrBalancer.GracefullyLeaveGroup()
+		sc.awaitGracefulLeave(sc.incrBalancer.GracefullyLeaveGroup())
 		sc.stop()
 		c <- struct{}{}
 	}()
 	return c
 }
 
+// Blocks until our partitions have been reassigned, or there is no one to do so.
+func (sc *eventSourceConsumer[T]) awaitGracefulLeave(left <-chan struct{}) {
+	if len(sc.source.BalanceStrategies()) <= 1 {
+		<-left
+		return
+	}
+	ticker := time.NewTicker(protocolCheckInterval)
+	defer ticker.Stop()
+	for {
+		select {
+		case <-left:
+			return
+		case <-sc.eventSource.runStatus.Done():
+			return
+		case <-ticker.C:
+			// if a member which does not support incremental balancing has joined the group, it is balanced by other means from there on
+			if protocol := sc.currentProtocol(); protocol != "" && protocol != IncrementalCoopProtocol {
+				return
+			}
+		}
+	}
+}
+
 // Immediately stops the consumer, leaving the consumer group abruptly.
 func (sc *eventSourceConsumer[T]) stop() {
 	sc.setStarted() // don't block the client from leaving the group
-- 
2.43.0


From adc981e4fb92d5959a605f580cd45b994a359b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:49 +0000
Subject: [PATCH 33/33] fix: mark records for the group commit before the
 partition may be revoked

---
 streams/eos_producer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 3d508ed..4575e8b 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -418,7 +418,6 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	p.txnContextCancel()
 	p.txnContext = nil
 	for _, ecs := range p.currentPartitions {
-		ecs.root.revocationWaiter.Done()
 		if p.shouldMarkCommit {
 			for ec := ecs.tail; ec != nil; ec = ec.prev {
 				if !ec.IsInterjection() {
@@ -426,6 +425,8 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 				}
 			}
 		}
+		// the partition may be revoked from here on, what is marked later would be committed by a former owner
+		ecs.root.revocationWaiter.Done()
 	}
 
 	partitionCount := len(p.currentPartitions)
-- 
2.43.0

