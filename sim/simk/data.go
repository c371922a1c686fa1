package simk

import (
	"github.com/twmb/franz-go/pkg/kmsg"
)

func (c *Cluster) produce(cx *reqCtx, q *kmsg.ProduceRequest) {
	r := kmsg.NewPtrProduceResponse()
	for _, t := range q.Topics {
		rt := kmsg.NewProduceResponseTopic()
		rt.Topic = t.Topic
		for _, pp := range t.Partitions {
			rp := kmsg.NewProduceResponseTopicPartition()
			rp.Partition, rp.BaseOffset, rp.LogAppendTime = pp.Partition, -1, -1
			p := c.part(t.Topic, pp.Partition)
			switch {
			case p == nil || !c.topics[t.Topic].visible(cx.b.ID, c.W.Now()):
				rp.ErrorCode = eUnknownTopic
			case p.leader != cx.b.ID:
				rp.ErrorCode = eNotLeader
			default:
				rp.ErrorCode, rp.BaseOffset = c.producePart(cx, q, p, pp.Records)
			}
			if rp.ErrorCode != 0 {
				c.W.Trace("%s: produce node %d %s/%d error %d", c.Name, cx.node, t.Topic, pp.Partition, rp.ErrorCode)
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		r.Topics = append(r.Topics, rt)
	}
	if q.Acks == 0 {
		cx.reply(nil)
		return
	}
	cx.reply(r)
}

func (c *Cluster) producePart(cx *reqCtx, q *kmsg.ProduceRequest, p *Partition, raw []byte) (int16, int64) {
	bs, err := parseBatches(raw)
	if err != nil || len(bs) != 1 {
		c.W.Trace("corrupt produce: %v", err)
		return 2, -1
	}
	b := bs[0]
	if c.ProduceErr != nil {
		if code := c.ProduceErr(cx.node, p, b.recs); code != 0 {
			return code, -1
		}
	}
	var x *Txn
	if b.txn {
		o := c.pidOwner[b.pid]
		if o == nil || b.epoch < o.epoch {
			return eInvalidProducerEpoch, -1
		}
		if o.state != tsOngoing || o.cur == nil || b.epoch != o.epoch || !o.cur.has(p) {
			return eInvalidTxnState, -1
		}
		x = o.cur
	}
	if b.pid >= 0 {
		ps := p.pids[b.pid]
		last := b.seq + int32(len(b.recs)) - 1
		if ps != nil {
			if b.epoch < ps.epoch {
				return eInvalidProducerEpoch, -1
			}
			if b.epoch == ps.epoch {
				for _, s := range ps.batches {
					if s.first == b.seq && s.last == last {
						c.Faults["dup-produce"]++
						return 0, s.off
					}
				}
				if n := len(ps.batches); n > 0 && ps.batches[n-1].last+1 != b.seq {
					return eOutOfOrderSeq, -1
				}
			} else {
				if b.seq != 0 {
					return eOutOfOrderSeq, -1
				}
				ps.epoch, ps.batches = b.epoch, nil
			}
		} else {
			if c.StrictSeq && b.seq != 0 {
				return eOutOfOrderSeq, -1
			}
			ps = &pidState{epoch: b.epoch}
			p.pids[b.pid] = ps
		}
		ps.batches = append(ps.batches, seqBatch{b.seq, last, p.hw})
		if len(ps.batches) > 5 {
			ps.batches = ps.batches[1:]
		}
	}
	c.appendData(p, b, x, cx.node)
	return 0, b.base
}

func (x *Txn) has(p *Partition) bool {
	for _, q := range x.Parts {
		if q == p {
			return true
		}
	}
	return false
}

// ---- fetch

// badBatch as the code of a "parterr" rule: the last batch of the partition arrives damaged.
const badBatch = 1000

type fetchWait struct {
	cx   *reqCtx
	q    *kmsg.FetchRequest
	done bool
	at   map[*Partition]bool // partitions it is registered with
}

func (p *Partition) notify() {
	ws := p.waiters
	p.waiters = nil
	for _, w := range ws {
		delete(w.at, p)
		if !w.done {
			w := w
			p.c.W.After(0, func() { p.c.tryFetch(w, false) })
		}
	}
}

func (p *Partition) dropWaiters() {
	ws := p.waiters
	p.waiters = nil
	for _, w := range ws {
		delete(w.at, p)
		if !w.done {
			w := w
			p.c.W.After(0, func() { p.c.tryFetch(w, true) })
		}
	}
}

func (c *Cluster) fetch(cx *reqCtx, q *kmsg.FetchRequest) {
	w := &fetchWait{cx: cx, q: q, at: map[*Partition]bool{}}
	c.W.After(int64(q.MaxWaitMillis)*1e6, func() { c.tryFetch(w, true) })
	c.tryFetch(w, false)
}

func (c *Cluster) tryFetch(w *fetchWait, final bool) {
	if w.done {
		return
	}
	cx, q := w.cx, w.q
	if cx.k.rclos != nil || cx.k.lclos || cx.b.down {
		w.done = true
		cx.k.busy = false
		return
	}
	r := kmsg.NewPtrFetchResponse()
	ready := final
	size := 0
	var parts []*Partition
	for _, t := range q.Topics {
		rt := kmsg.NewFetchResponseTopic()
		rt.Topic = t.Topic
		for _, fp := range t.Partitions {
			rp := kmsg.NewFetchResponseTopicPartition()
			rp.Partition = fp.Partition
			p := c.part(t.Topic, fp.Partition)
			switch {
			case p == nil || !c.topics[t.Topic].visible(cx.b.ID, c.W.Now()):
				rp.ErrorCode = eUnknownTopic
			case p.leader != cx.b.ID:
				rp.ErrorCode = eNotLeader
			case fp.CurrentLeaderEpoch >= 0 && fp.CurrentLeaderEpoch < p.lepoch:
				rp.ErrorCode = eFencedLeaderEpoch
			case fp.CurrentLeaderEpoch > p.lepoch:
				rp.ErrorCode = eUnknownLeaderEpoch
			case fp.FetchOffset > p.hw || fp.FetchOffset < 0:
				rp.ErrorCode = eOffsetOutOfRange
			default:
				rp.HighWatermark, rp.LastStableOffset, rp.LogStartOffset = p.hw, p.lso(), 0
				lim := p.hw
				if q.IsolationLevel == 1 {
					lim = p.lso()
				}
				n := 0
				for _, b := range p.batches {
					if b.last < fp.FetchOffset {
						continue
					}
					if b.base >= lim || (size > 0 && size+len(b.raw) > int(q.MaxBytes)) ||
						(n > 0 && len(rp.RecordBatches)+len(b.raw) > int(fp.PartitionMaxBytes)) {
						break
					}
					if c.FetchBatches > 0 && n >= c.FetchBatches {
						break
					}
					rp.RecordBatches = append(rp.RecordBatches, b.raw...)
					size += len(b.raw)
					n++
				}
				if q.IsolationLevel == 1 {
					for _, a := range p.aborted {
						if a.last >= fp.FetchOffset && a.first < lim {
							e := kmsg.NewFetchResponseTopicPartitionAbortedTransaction()
							e.ProducerID, e.FirstOffset = a.pid, a.first
							rp.AbortedTransactions = append(rp.AbortedTransactions, e)
						}
					}
				}
				parts = append(parts, p)
			}
			if rp.ErrorCode != 0 || len(rp.RecordBatches) > 0 {
				ready = true
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		r.Topics = append(r.Topics, rt)
	}
	if ready && cx.partErr != 0 {
		var all []*kmsg.FetchResponseTopicPartition
		for i := range r.Topics {
			for j := range r.Topics[i].Partitions {
				all = append(all, &r.Topics[i].Partitions[j])
			}
		}
		if len(all) > 0 {
			switch rp := all[cx.partPick%len(all)]; {
			case rp.ErrorCode != 0:
			case cx.partErr == badBatch && len(rp.RecordBatches) > 0:
				rp.RecordBatches = clone(rp.RecordBatches)
				rp.RecordBatches[len(rp.RecordBatches)-1] ^= 0x55
			default:
				rp.ErrorCode, rp.RecordBatches, rp.AbortedTransactions = eTopicAuth, nil, nil
				if cx.partErr != badBatch {
					rp.ErrorCode = cx.partErr
				}
			}
		}
	}
	if !ready && q.MaxWaitMillis > 0 {
		for _, p := range parts {
			if !w.at[p] {
				w.at[p] = true
				p.waiters = append(p.waiters, w)
			}
		}
		return
	}
	w.done = true
	cx.reply(r)
}

func (c *Cluster) listOffsets(cx *reqCtx, q *kmsg.ListOffsetsRequest) {
	r := kmsg.NewPtrListOffsetsResponse()
	for _, t := range q.Topics {
		rt := kmsg.NewListOffsetsResponseTopic()
		rt.Topic = t.Topic
		for _, lp := range t.Partitions {
			rp := kmsg.NewListOffsetsResponseTopicPartition()
			rp.Partition, rp.Timestamp, rp.Offset = lp.Partition, -1, -1
			p := c.part(t.Topic, lp.Partition)
			switch {
			case p == nil || !c.topics[t.Topic].visible(cx.b.ID, c.W.Now()):
				rp.ErrorCode = eUnknownTopic
			case p.leader != cx.b.ID:
				rp.ErrorCode = eNotLeader
			case lp.CurrentLeaderEpoch >= 0 && lp.CurrentLeaderEpoch < p.lepoch:
				rp.ErrorCode = eFencedLeaderEpoch
			case lp.CurrentLeaderEpoch > p.lepoch:
				rp.ErrorCode = eUnknownLeaderEpoch
			default:
				rp.LeaderEpoch = p.lepoch
				switch lp.Timestamp {
				case -2:
					rp.Offset = 0
				case -1:
					rp.Offset = p.hw
					if q.IsolationLevel == 1 {
						rp.Offset = p.lso()
					}
				default:
					for _, b := range p.batches {
						for _, x := range b.recs {
							if rp.Offset < 0 && x.Ctrl == 0 && x.Ts >= lp.Timestamp {
								rp.Offset, rp.Timestamp = x.Off, x.Ts
							}
						}
					}
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		r.Topics = append(r.Topics, rt)
	}
	cx.reply(r)
}

func (c *Cluster) epochOffsets(cx *reqCtx, q *kmsg.OffsetForLeaderEpochRequest) {
	r := kmsg.NewPtrOffsetForLeaderEpochResponse()
	for _, t := range q.Topics {
		rt := kmsg.NewOffsetForLeaderEpochResponseTopic()
		rt.Topic = t.Topic
		for _, lp := range t.Partitions {
			rp := kmsg.NewOffsetForLeaderEpochResponseTopicPartition()
			rp.Partition, rp.EndOffset, rp.LeaderEpoch = lp.Partition, -1, -1
			p := c.part(t.Topic, lp.Partition)
			switch {
			case p == nil:
				rp.ErrorCode = eUnknownTopic
			case p.leader != cx.b.ID:
				rp.ErrorCode = eNotLeader
			case lp.CurrentLeaderEpoch >= 0 && lp.CurrentLeaderEpoch < p.lepoch:
				rp.ErrorCode = eFencedLeaderEpoch
			case lp.CurrentLeaderEpoch > p.lepoch:
				rp.ErrorCode = eUnknownLeaderEpoch
			default:
				rp.LeaderEpoch, rp.EndOffset = lp.LeaderEpoch, p.hw
				for _, e := range p.epochEnds {
					if e.epoch > lp.LeaderEpoch {
						rp.EndOffset = e.start
						break
					}
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		r.Topics = append(r.Topics, rt)
	}
	cx.reply(r)
}

// ---- transactions

func (c *Cluster) findCoordinator(cx *reqCtx, q *kmsg.FindCoordinatorRequest) {
	r := kmsg.NewPtrFindCoordinatorResponse()
	var id int32
	if q.CoordinatorType == 1 {
		id = c.txnCoord(q.CoordinatorKey).coord
	} else {
		id = c.group(q.CoordinatorKey).coord
	}
	if b := c.broker(id); b == nil || b.down {
		r.ErrorCode = eCoordNotAvailable
		r.NodeID = -1
	} else {
		r.NodeID = id
		h, p := (&Conn{c: c, b: b, Lis: cx.k.Lis}).host()
		r.Host, r.Port = h, int32(p)
	}
	cx.reply(r)
}

func (c *Cluster) txnCoord(id string) *txnCoord {
	t := c.txns[id]
	if t == nil {
		c.nextPID++
		t = &txnCoord{id: id, pid: c.nextPID, epoch: -1, coord: c.randUp()}
		c.txns[id] = t
		c.pidOwner[t.pid] = t
	}
	return t
}

func (t *txnCoord) check(cx *reqCtx) int16 {
	if t.coord != cx.b.ID {
		return eNotCoordinator
	}
	if t.loadTil > cx.c.W.Now() {
		return eCoordLoading
	}
	return 0
}

func (c *Cluster) initPID(cx *reqCtx, q *kmsg.InitProducerIDRequest) {
	r := kmsg.NewPtrInitProducerIDResponse()
	r.ProducerID = -1
	defer func() { cx.reply(r) }()
	if q.TransactionalID == nil {
		c.nextPID++
		r.ProducerID, r.ProducerEpoch = c.nextPID, 0
		return
	}
	t := c.txnCoord(*q.TransactionalID)
	if e := t.check(cx); e != 0 {
		r.ErrorCode = e
		return
	}
	if q.ProducerID >= 0 && t.epoch >= 0 && (q.ProducerID != t.pid || q.ProducerEpoch != t.epoch) {
		r.ErrorCode = eInvalidProducerEpoch
		return
	}
	switch t.state {
	case tsOngoing:
		c.decide(t, false, "init-producer-id")
		r.ErrorCode = eConcurrentTxns
		return
	case tsPrepareAbort, tsPrepareCommit:
		r.ErrorCode = eConcurrentTxns
		return
	}
	t.epoch++
	t.state = tsEmpty
	t.timeout = int64(q.TransactionTimeoutMillis) * 1e6
	t.node = cx.node
	r.ProducerID, r.ProducerEpoch = t.pid, t.epoch
}

func (t *txnCoord) fenced(pid int64, epoch int16) int16 {
	if pid != t.pid {
		return eInvalidPIDMapping
	}
	if epoch != t.epoch {
		return eInvalidProducerEpoch
	}
	return 0
}

func (c *Cluster) addParts(cx *reqCtx, q *kmsg.AddPartitionsToTxnRequest) {
	t := c.txnCoord(q.TransactionalID)
	code := t.check(cx)
	if code == 0 {
		code = t.fenced(q.ProducerID, q.ProducerEpoch)
	}
	if code == 0 && (t.state == tsPrepareCommit || t.state == tsPrepareAbort) {
		code = eConcurrentTxns
	}
	if code == 0 {
		for _, tt := range q.Topics {
			for _, p := range tt.Partitions {
				if c.part(tt.Topic, p) == nil {
					code = eUnknownTopic
				}
			}
		}
	}
	if code == 0 {
		if t.state != tsOngoing {
			t.state = tsOngoing
			t.gen++
			t.cur = &Txn{ID: len(c.Txns), TxnID: t.id, PID: t.pid, Epoch: t.epoch, Node: cx.node, Begin: c.W.Now()}
			c.Txns = append(c.Txns, t.cur)
			gen := t.gen
			c.W.After(t.timeout+c.Rng.I63(c.TxnSlack+1), func() {
				if t.gen == gen && t.state == tsOngoing {
					c.Faults["txn-timeout"]++
					t.epoch++
					c.decide(t, false, "timeout")
				}
			})
		}
		for _, tt := range q.Topics {
			for _, n := range tt.Partitions {
				if p := c.part(tt.Topic, n); !t.cur.has(p) {
					t.cur.Parts = append(t.cur.Parts, p)
				}
			}
		}
	}
	cx.reply(errResponse(cx, code))
}

func (c *Cluster) endTxn(cx *reqCtx, q *kmsg.EndTxnRequest) {
	t := c.txnCoord(q.TransactionalID)
	r := kmsg.NewPtrEndTxnResponse()
	code := t.check(cx)
	if code == 0 {
		code = t.fenced(q.ProducerID, q.ProducerEpoch)
	}
	if code == 0 {
		switch t.state {
		case tsEmpty:
			code = eInvalidTxnState
		case tsOngoing:
			c.decide(t, q.Commit, "client")
		case tsPrepareCommit, tsPrepareAbort:
			if (t.state == tsPrepareCommit) == q.Commit {
				code = eConcurrentTxns
			} else {
				code = eInvalidTxnState
			}
		case tsCommitted, tsAborted:
			if (t.state == tsCommitted) != q.Commit {
				code = eInvalidTxnState
			}
		}
	}
	r.ErrorCode = code
	cx.reply(r)
}

// decide is the point of no return of a transaction; its markers follow.
func (c *Cluster) decide(t *txnCoord, commit bool, why string) {
	x := t.cur
	x.Outcome, x.Reason, x.Decided = outcome(commit), why, c.W.Now()
	t.state = tsPrepareAbort
	if commit {
		t.state = tsPrepareCommit
	}
	c.W.Trace("%s: txn %d node %d %s (%s) %d records", c.Name, x.ID, x.Node, map[bool]string{true: "commit", false: "abort"}[commit], why, len(x.Recs))
	if c.OnTxnDecide != nil {
		c.OnTxnDecide(x)
	}
	t.pending = len(x.Parts)
	for _, p := range x.Parts {
		p := p
		c.W.After(c.MarkerMin+c.Rng.I63(c.MarkerMax-c.MarkerMin+1), func() { c.marker(t, x, p) })
	}
}

func (c *Cluster) marker(t *txnCoord, x *Txn, p *Partition) {
	if p.leader == -1 {
		c.W.After(20e6, func() { c.marker(t, x, p) })
		return
	}
	c.appendMarker(p, x)
	t.pending--
	if t.pending == 0 {
		x.Ended = c.W.Now()
		t.state = tsAborted
		if x.Outcome == 1 {
			t.state = tsCommitted
		}
		if c.OnTxnEnd != nil {
			c.OnTxnEnd(x)
		}
	}
}
