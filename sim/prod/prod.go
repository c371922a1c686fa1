// Package prod simulates streams.Producer and streams.BatchProducer (C17): clients that produce from
// several goroutines while brokers and the network fail, observed at the callbacks and in the logs.
package prod

import (
	"bytes"
	"context"
	"fmt"
	"runtime"
	"strconv"
	"time"

	"verifsim/core"
	"verifsim/flt"
	"verifsim/simk"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
)

func init() { core.Scenarios["prod"] = core.Scenario{Gen: gen, Run: run} }

const dflt = "t0"

var topics = []string{dflt, "t1", "missing"}

func gen(profile string, seed uint64) *core.Plan {
	r := simk.NewRng(seed*6007 + simk.Hash64("prod/"+profile))
	p := &core.Plan{Knobs: map[string]int64{}, Sched: core.DefaultSched(r)}
	set := p.Set
	calm := profile == "calm"
	set("brokers", int64(r.Range(1, 3)))
	set("parts0", int64(r.Range(1, 4)))
	set("parts1", int64(r.Range(1, 3)))
	set("producers", int64(r.Range(1, 2)))
	set("threads", int64(r.Range(1, 4)))
	set("lat_min", int64(r.Pick(20, 100, 500)))
	set("lat_max", int64(r.Pick(600, 2000, 5000)))
	set("max_buffered", int64(r.Pick(0, 0, 0, 1, 3)))
	set("linger", int64(r.Pick(-1, -1, 0, 100000)))
	if !calm {
		set("rec_timeout", int64(r.Pick(0, 0, 0, 0, 1000, 1500, 4000)))
	}
	set("release", int64(r.Intn(2)))
	set("meta_lag", int64(r.Pick(0, 0, 500, 50000)))
	set("finalize_delay", int64(r.Pick(0, 0, 1000, 100000)))
	end := r.Pick(2, 5, 10, 20) * 1e6
	set("end", int64(end))
	nt := int(p.K("threads"))
	id := 0
	mode := []string{"sync", "async", "batch"}
	if profile == "batch" {
		mode = []string{"batch", "batch", "batch", "async"}
	}
	mk := func() *core.Ev {
		id++
		e := &core.Ev{Type: r1(r, "", "A", "B"), Outs: []int{r.Pick(-1, -1, 0, 1), -1}, Store: r.Pick(0, 0, 1, 3), Size: r.Pick(0, 0, 10, 1000)}
		e.Key = r1(r, "", "", "a", "b", "c", "key-"+strconv.Itoa(r.Intn(50)))
		if r.P(0.3) {
			n := p.K("parts0")
			if e.Outs[0] == 1 {
				n = p.K("parts1")
			}
			e.Outs[1] = r.Intn(int(n))
		}
		if r.P(0.1) {
			e.Mode = 1 // no value
		}
		if !calm && r.P(0.02) {
			e.Outs[1] = 99
		}
		if !calm && r.P(0.02) {
			e.Outs[0] = 2
		}
		return e
	}
	for n := r.Range(20, 80); n > 0; n-- {
		o := &core.Op{At: int64(r.Intn(end)), Kind: "p", M: r.Intn(int(p.K("producers"))), Part: int32(r.Intn(nt)), Str: mode[r.Intn(len(mode))]}
		k := 1
		if o.Str == "batch" {
			k = r.Pick(0, 1, 2, 3, 5, 10)
			o.N = r.Pick(0, 0, 0, 1) // 1: no callback
		}
		if o.Str == "async" {
			k = r.Pick(1, 1, 3, 8)
			o.N = r.Pick(0, 0, 0, 0, 1)
		}
		for ; k > 0; k-- {
			o.Evs = append(o.Evs, mk())
		}
		if !calm && o.Str != "batch" && r.P(0.1) {
			o.Dur = int64(r.Pick(1, 100, 3000, 1000000)) // the context ends
		}
		p.Add(o)
	}
	g := &flt.Gen{R: r, P: p, End: int64(end), Nodes: int(p.K("producers")), Brokers: int(p.K("brokers")), Topics: topics[:2], Parts: 3}
	keys := []int{0, 0, 0, 0, 3, 22}
	if !calm {
		if r.P(0.7) {
			g.Net(r.Range(1, 6), keys)
		}
		if r.P(0.5) {
			g.Errs(r.Range(1, 5), keys)
		}
		if r.P(0.3) { // errors that a client does not retry
			for n := r.Range(1, 3); n > 0; n-- {
				p.Add(&core.Op{At: int64(r.Intn(end)), Kind: "fatal", M: r.Intn(int(p.K("producers"))), N: r.Pick(1, 1, 2), Skip: r.Pick(0, 1, 5, 10), Arg: int64(r.Pick(10, 29, 87))})
			}
		}
		if r.P(0.5) {
			g.BrokerFaults(r.Range(1, 3))
		}
		if r.P(0.15) {
			p.Add(&core.Op{At: int64(r.Intn(end)), Kind: "close", M: r.Intn(int(p.K("producers")))})
		}
	}
	p.Sort()
	return p
}

func r1(r *simk.Rng, xs ...string) string { return xs[r.Intn(len(xs))] }

type store struct{}

func (store) ReceiveChange(streams.IncomingRecord) error { return nil }
func (store) Revoked()                                   {}

// rec is one record that was handed to a producer.
type rec struct {
	id       int
	b        *job
	spec     *core.Ev
	r        *streams.Record
	topic    string
	key, val []byte
	call     int64
	callAt   int64
	ret      int64 // when the call that handed it over returned
	cbs      int
	err      error
	known    bool // the outcome was reported
	log      []*simk.Rec
}

// late tells whether a record was handed over when its producer was, or was about to be, closed: the
// client does not report on what it is given after that.
func (x *rec) late() bool {
	p := x.b.p
	return x.b.kind != "batch" && p.closed > 0 && (x.callAt == 0 || x.callAt > p.closed-500e6)
}

// late tells whether one of its records was, or is waiting for such a call to return.
func (j *job) late(stuck map[string]bool) bool {
	k := fmt.Sprint(j.p.i, j.thread)
	if stuck[k] && j.ret == 0 {
		return true
	}
	for _, x := range j.recs {
		if x.late() {
			stuck[k] = j.ret == 0
			return true
		}
	}
	return false
}

// job is one call.
type job struct {
	id      int
	kind    string
	p       *producer
	thread  int
	op      *core.Op
	recs    []*rec
	ec      *streams.EventContext[store]
	ud      *int
	nocb    bool
	call    int64
	ret     int64
	dones   int
	cbs     int
	fin     int64
	state   streams.ExecutionState
	list    []*streams.Record
	ctxDone func()
}

type producer struct {
	h      *H
	i      int
	node   int32
	p      *streams.Producer
	bp     *streams.BatchProducer[store]
	queues [][]*job
	kick   []chan struct{}
	comp   []completion
	ckick  chan struct{}
	closed int64
	shut   int64
}

type completion struct {
	j *job
	f func() streams.ExecutionState
}

type H struct {
	r    *core.Run
	p    *core.Plan
	c    *simk.Cluster
	ps   []*producer
	jobs []*job
	recs map[int]*rec
	seq  int64
	hurt bool // something happened that may make records fail

	fatal []*simk.Rule
}

// refuse answers a batch which was not written before with an error that is final.
func (h *H) refuse(node int32, p *simk.Partition, rs []*simk.Rec) int16 {
	for _, l := range rs {
		idb, _ := l.Header("id")
		id, _ := strconv.Atoi(string(idb))
		if x := h.recs[id]; x == nil || len(x.log) > 0 {
			return 0
		}
	}
	for _, f := range h.fatal {
		if f.Node != node || f.N == 0 {
			continue
		}
		if f.Skip > 0 {
			f.Skip--
			continue
		}
		f.N--
		h.r.Fault("produce-refused")
		h.r.W.Trace("produce to %s/%d refused with %d", p.Topic, p.Num, f.Arg)
		return int16(f.Arg)
	}
	return 0
}

func (h *H) v(sig, f string, a ...any) { h.r.V("C17", sig, f, a...) }
func (h *H) tick() int64               { h.seq++; return h.seq }

type completer struct {
	h *H
	j *job
}

func (c completer) AsyncComplete(aj streams.AsyncJob[store]) {
	h, j := c.h, c.j
	simk.Atomic(func() {
		h.r.OK("C17")
		j.dones++
		h.r.W.Trace("batch %d is handed back", j.id)
		if j.dones > 1 {
			h.v("complete-twice", "batch %d of %d records completes %d times", j.id, len(j.recs), j.dones)
		}
		if len(j.recs) == 0 {
			h.v("empty-complete", "an empty batch, whose event was completed by Produce, is completed again")
		}
		for _, x := range j.recs {
			x.err, x.known = x.r.Error(), true
			h.outcome(x)
		}
		p := j.p
		p.comp = append(p.comp, completion{j, aj.Finalize})
		select {
		case p.ckick <- struct{}{}:
		default:
		}
	})
}

// outcome judges what is reported about a record against the log.
func (h *H) outcome(x *rec) {
	h.r.OK("C17")
	h.r.W.Trace("record %d: %v", x.id, x.err)
	if x.err == nil {
		h.r.Count("acknowledged", 1)
		if len(x.log) == 0 {
			h.v("success-not-written", "record %d is reported as produced, but it is not in any topic", x.id)
		}
		return
	}
	h.r.Count("failed", 1)
	if !h.hurt && x.valid(h) {
		h.v("spurious-failure", "record %d failed although nothing went wrong: %v", x.id, x.err)
	}
}

func (x *rec) valid(h *H) bool {
	t := h.c.Topic(x.topic)
	return t != nil && x.spec.Outs[1] < len(t.Parts)
}

func (h *H) onAppend(p *simk.Partition, rs []*simk.Rec) {
	for _, l := range rs {
		if l.Ctrl != 0 {
			continue
		}
		h.r.OK("C17")
		idb, _ := l.Header("id")
		id, _ := strconv.Atoi(string(idb))
		x := h.recs[id]
		if x == nil {
			h.v("foreign-record", "%s/%d holds a record nobody produced: key %q value %q", l.Topic, l.Part, l.Key, l.Val)
			continue
		}
		x.log = append(x.log, l)
		if len(x.log) > 1 {
			h.r.Count("duplicates", 1)
			if len(h.r.Res.Faults) == 0 {
				h.v("duplicate", "record %d is in the topic %d times although nothing went wrong", x.id, len(x.log))
			}
		}
		if x.known && x.err == nil && len(x.log) == 1 {
			h.v("success-not-written", "record %d was reported as produced before it was written", x.id)
		}
		if !bytes.Equal(l.Key, x.key) || (len(x.key) == 0) != (l.Key == nil) && x.key == nil {
			h.v("key", "record %d was produced with key %q (nil %v), the topic holds %q (nil %v)", x.id, x.key, x.key == nil, l.Key, l.Key == nil)
		}
		if !bytes.Equal(l.Val, x.val) || x.val == nil && l.Val != nil {
			h.v("value", "record %d was produced with a value of %d bytes (nil %v), the topic holds %d bytes (nil %v)", x.id, len(x.val), x.val == nil, len(l.Val), l.Val == nil)
		}
		want := map[string]string{"id": strconv.Itoa(x.id)}
		for i := 0; i < x.spec.Store; i++ {
			want["h"+strconv.Itoa(i)] = fmt.Sprint(x.id, i)
		}
		if x.spec.Type != "" {
			want[streams.RecordTypeHeaderKey] = x.spec.Type
		}
		ok := len(l.Hdrs) == len(want)
		for _, hd := range l.Hdrs {
			ok = ok && want[hd.Key] == string(hd.Val)
		}
		if !ok {
			h.v("headers", "record %d was produced with headers %v, the topic holds %v", x.id, want, l.Hdrs)
		}
		if l.Topic != x.topic {
			h.v("topic", "record %d was produced to topic %s, it is in %s", x.id, x.topic, l.Topic)
			continue
		}
		n := len(h.c.Topic(l.Topic).Parts)
		if w := x.spec.Outs[1]; w >= 0 {
			if l.Part != int32(w) {
				h.v("partition", "record %d was produced to partition %d, it is in %d", x.id, w, l.Part)
			}
		} else if x.key != nil && l.Part != int32(murmur2(x.key)&0x7fffffff)%int32(n) {
			h.v("partition", "record %d has key %q, whose partition is %d of %d, it is in %d", x.id, x.key, int32(murmur2(x.key)&0x7fffffff)%int32(n), n, l.Part)
		}
	}
}

// murmur2 as the Java client computes it.
func murmur2(b []byte) uint32 {
	const m = uint32(0x5bd1e995)
	h := uint32(0x9747b28c) ^ uint32(len(b))
	for len(b) >= 4 {
		k := uint32(b[3])<<24 + uint32(b[2])<<16 + uint32(b[1])<<8 + uint32(b[0])
		b = b[4:]
		k *= m
		k ^= k >> 24
		k *= m
		h *= m
		h ^= k
	}
	switch len(b) {
	case 3:
		h ^= uint32(b[2]) << 16
		fallthrough
	case 2:
		h ^= uint32(b[1]) << 8
		fallthrough
	case 1:
		h ^= uint32(b[0])
		h *= m
	}
	h ^= h >> 13
	h *= m
	h ^= h >> 15
	return h
}

// build makes the record as an application would.
func (h *H) build(x *rec) {
	r := streams.NewRecord()
	s := x.spec
	r.WithHeader("id", []byte(strconv.Itoa(x.id)))
	for i := 0; i < s.Store; i++ {
		r.WithHeader("h"+strconv.Itoa(i), []byte(fmt.Sprint(x.id, i)))
	}
	x.topic = dflt
	if t := s.Outs[0]; t >= 0 {
		x.topic = topics[t]
		r.WithTopic(x.topic)
	}
	if s.Outs[1] >= 0 {
		r.WithPartition(int32(s.Outs[1]))
	}
	if s.Key != "" {
		x.key = []byte(s.Key)
		if x.id%2 == 0 {
			r.WithKeyString(s.Key)
		} else {
			r.WriteKey(x.key[:1], x.key[1:])
		}
	}
	if s.Mode != 1 {
		x.val = []byte(fmt.Sprintf("v%d.", x.id))
		for i := 0; i < s.Size; i++ {
			x.val = append(x.val, byte(i*7+x.id))
		}
		r.WithValue(x.val)
	}
	if s.Type != "" {
		r.WithRecordType(s.Type)
	}
	x.r = r
}

func (p *producer) thread(t int) {
	h := p.h
	for {
		for len(p.queues[t]) > 0 {
			var j *job
			ctx := context.Background()
			simk.Atomic(func() {
				j = p.queues[t][0]
				p.queues[t] = p.queues[t][1:]
				j.call = h.tick()
				if d := j.op.Dur; d > 0 {
					ctx, j.ctxDone = context.WithTimeout(ctx, time.Duration(d)*time.Microsecond)
				}
			})
			for _, x := range j.recs {
				h.build(x)
				j.list = append(j.list, x.r)
			}
			simk.Atomic(func() {
				h.r.W.Trace("producer %d thread %d: %s %d, %d records from %d", p.i, t, j.kind, j.id, len(j.recs), first(j.recs))
				if j.kind == "batch" {
					for _, x := range j.recs {
						x.call, x.callAt = h.tick(), h.r.W.Now()
					}
				}
			})
			switch j.kind {
			case "batch":
				p.batch(j)
			case "sync":
				for _, x := range j.recs {
					simk.Atomic(func() { x.call, x.callAt = h.tick(), h.r.W.Now() })
					err := p.p.Produce(ctx, x.r)
					simk.Atomic(func() {
						x.ret = h.tick()
						x.cbs++
						x.err, x.known = err, true
						h.outcome(x)
					})
					if h.p.K("release") == 1 {
						x.r.Release()
					}
				}
			case "async":
				for _, x := range j.recs {
					simk.Atomic(func() { x.call, x.callAt = h.tick(), h.r.W.Now() })
					p.p.ProduceAsync(ctx, x.r, p.callback(j, x))
					simk.Atomic(func() { x.ret = h.tick() })
				}
			}
			simk.Atomic(func() { j.ret = h.tick() })
		}
		<-p.kick[t]
	}
}

func first(rs []*rec) int {
	if len(rs) == 0 {
		return 0
	}
	return rs[0].id
}

func (p *producer) callback(j *job, x *rec) func(*streams.Record, error) {
	h := p.h
	if j.nocb {
		return nil
	}
	return func(r *streams.Record, err error) {
		simk.Atomic(func() {
			x.cbs++
			if x.cbs > 1 {
				h.v("callback-twice", "the callback of record %d is invoked %d times", x.id, x.cbs)
				return
			}
			if r != x.r {
				h.v("callback-args", "the callback of record %d is given another record", x.id)
			}
			x.err, x.known = err, true
			h.outcome(x)
		})
		if h.p.K("release") == 1 {
			r.Release()
		}
	}
}

func (p *producer) batch(j *job) {
	h := p.h
	var cb streams.BatchProducerCallback[store]
	if !j.nocb {
		cb = func(ec *streams.EventContext[store], records []*streams.Record, userData any) streams.ExecutionState {
			simk.Atomic(func() {
				h.r.OK("C17")
				j.cbs++
				if j.cbs > 1 {
					h.v("callback-twice", "the callback of batch %d is invoked %d times", j.id, j.cbs)
					return
				}
				if ec != j.ec || userData != any(j.ud) || len(records) != len(j.recs) {
					h.v("callback-args", "the callback of batch %d: other event %v, other user data %v, %d of %d records", j.id, ec != j.ec, userData != any(j.ud), len(records), len(j.recs))
					return
				}
				for i, x := range j.recs {
					if records[i] != x.r {
						h.v("callback-args", "the callback of batch %d is given another record at position %d", j.id, i)
					} else if len(j.recs) > 0 && (!x.known || records[i].Error() != x.err) {
						h.v("record-error", "the callback of batch %d finds error %v on record %d, it was %v when the batch completed", j.id, records[i].Error(), x.id, x.err)
					}
				}
			})
			return j.state
		}
	}
	st := p.bp.Produce(j.ec, j.list, cb, j.ud)
	simk.Atomic(func() {
		for _, x := range j.recs {
			x.ret = h.tick()
		}
		if len(j.recs) == 0 {
			want := streams.Complete
			if !j.nocb {
				want = j.state
				if j.cbs != 1 {
					h.v("empty-batch", "the callback of an empty batch was invoked %d times when Produce returned %v", j.cbs, st)
				}
			}
			if st != want {
				h.v("empty-batch", "Produce of an empty batch returns %v, want %v", st, want)
			}
			j.fin = h.tick()
		} else if st != streams.Incomplete {
			h.v("produce-state", "Produce of batch %d returns %v", j.id, st)
		}
	})
}

// worker takes finished batches back, as a partition worker does.
func (p *producer) worker() {
	h := p.h
	for {
		for len(p.comp) > 0 {
			var x completion
			simk.Atomic(func() { x = p.comp[0]; p.comp = p.comp[1:] })
			if d := h.p.K("finalize_delay"); d > 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			st := x.f()
			simk.Atomic(func() {
				j := x.j
				j.fin = h.tick()
				want := streams.Complete
				if !j.nocb {
					want = j.state
					if j.cbs == 0 {
						h.v("no-callback", "batch %d is finalized without its callback", j.id)
					}
				}
				if st != want {
					h.v("final-state", "batch %d is finalized with state %v, its callback returned %v", j.id, st, want)
				}
			})
		}
		<-p.ckick
	}
}

func run(r *core.Run) {
	p := r.Plan
	h := &H{r: r, p: p, recs: map[int]*rec{}}
	c := simk.NewCluster(r.W, "c", r.Rng, int(p.K("brokers")))
	h.c = c
	c.LatMin, c.LatMax, c.MetaLag = p.K("lat_min")*1000, p.K("lat_max")*1000, p.K("meta_lag")*1000
	c.CreateTopic("t0", int(p.K("parts0")), nil, false, 0)
	c.CreateTopic("t1", int(p.K("parts1")), nil, false, 0)
	c.StrictSeq = true // brokers which accept any first sequence number may reorder what is in flight
	c.OnAppend = h.onAppend
	c.ProduceErr = h.refuse
	for i := 0; i < int(p.K("producers")); i++ {
		pr := &producer{h: h, i: i, node: int32(i + 1), ckick: make(chan struct{}, 1)}
		h.ps = append(h.ps, pr)
		for t := 0; t < int(p.K("threads")); t++ {
			pr.queues = append(pr.queues, nil)
			pr.kick = append(pr.kick, make(chan struct{}, 1))
		}
		var opts []kgo.Opt
		if n := p.K("max_buffered"); n > 0 {
			opts = append(opts, kgo.MaxBufferedRecords(int(n)))
		}
		if n := p.K("linger"); n >= 0 {
			opts = append(opts, kgo.ProducerLinger(time.Duration(n)*time.Microsecond))
		}
		if n := p.K("rec_timeout"); n > 0 {
			opts = append(opts, kgo.RecordDeliveryTimeout(time.Duration(n)*time.Millisecond))
			h.hurt = true
		}
		dest := streams.Destination{DefaultTopic: dflt, Cluster: c}
		ready := make(chan struct{})
		go func() {
			runtime.SimSetNode(pr.node)
			pr.p = streams.NewProducer(dest, opts...)
			pr.bp = streams.NewBatchProducer[store](dest, opts...)
			for t := range pr.queues {
				go pr.thread(t)
			}
			go pr.worker()
			close(ready)
		}()
		<-ready
	}
	env := &flt.Env{R: r, C: c, Node: func(i int) int32 { return int32(i + 1) }, Topics: topics[:2]}
	id := 0
	states := []streams.ExecutionState{streams.Complete, streams.Complete, streams.Incomplete}
	for _, op := range p.Ops {
		if d := op.At*1000 - r.W.Now(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		if env.Do(op) {
			h.hurt = true
			continue
		}
		switch op.Kind {
		case "fatal":
			h.hurt = true
			h.fatal = append(h.fatal, &simk.Rule{ID: op.ID, Node: int32(op.M + 1), Skip: op.Skip, N: op.N, Arg: op.Arg})
		case "close":
			pr := h.ps[op.M]
			if pr.closed == 0 {
				h.hurt = true
				r.Fault("client-close")
				pr.closed = r.W.Now()
				r.W.Trace("producer %d closes", op.M)
				go func() {
					runtime.SimSetNode(pr.node)
					pr.p.Close()
					simk.Atomic(func() { pr.shut = r.W.Now(); r.W.Trace("producer %d closed", op.M) })
				}()
			}
		case "p":
			pr := h.ps[op.M%len(h.ps)]
			j := &job{id: len(h.jobs) + 1, kind: op.Str, p: pr, thread: int(op.Part) % len(pr.queues), op: op, nocb: op.N == 1, ud: new(int), state: states[op.ID%len(states)]}
			if op.Dur > 0 {
				h.hurt = true
			}
			if j.kind == "sync" {
				j.nocb = false
			}
			h.jobs = append(h.jobs, j)
			for _, e := range op.Evs {
				id++
				x := &rec{id: id, b: j, spec: e}
				j.recs = append(j.recs, x)
				h.recs[id] = x
			}
			j.ec = streams.MockEventContext[store](context.Background(), nil, "", store{}, completer{h, j}, nil)
			pr.queues[j.thread] = append(pr.queues[j.thread], j)
			select {
			case pr.kick[j.thread] <- struct{}{}:
			default:
			}
		}
	}
	env.End()
	h.fatal = nil
	until := r.W.Now() + 200e9
	// calls made once Close is under way may never return, which holds up the later calls of that
	// goroutine; if they do return after all, those are waited for as well
	for more := true; more && r.W.Now() < until; more = h.pending() {
		for r.W.Now() < until && h.pending() && !runtime.SimGetStats().Overrun {
			time.Sleep(100 * time.Millisecond)
		}
		time.Sleep(3 * time.Second)
		if runtime.SimGetStats().Overrun {
			break
		}
	}
	if runtime.SimGetStats().Overrun {
		r.Res.Inconcl = "step budget"
		return
	}
	h.final()
}

func (h *H) pending() bool {
	stuck := map[string]bool{}
	for _, j := range h.jobs {
		if j.late(stuck) {
			continue
		}
		if j.ret == 0 {
			return true
		}
		switch j.kind {
		case "batch":
			if j.fin == 0 {
				return true
			}
		default:
			for _, x := range j.recs {
				if !j.nocb && x.cbs == 0 {
					return true
				}
			}
		}
	}
	for _, p := range h.ps {
		if p.closed > 0 && p.shut == 0 {
			return true
		}
	}
	return false
}

func (h *H) final() {
	for _, p := range h.ps {
		if p.closed > 0 && p.shut == 0 {
			h.v("close-hangs", "Close of producer %d has not returned", p.i)
		}
	}
	stuck := map[string]bool{}
	for _, j := range h.jobs {
		h.r.OK("C17")
		if j.late(stuck) {
			for _, x := range j.recs {
				if x.b.kind != "batch" && x.ret > 0 && !x.late() && !j.nocb && x.cbs == 0 {
					h.v("no-callback", "the outcome of record %d (%s) is not reported although its producer was closed after it was handed over", x.id, j.kind)
				}
			}
			continue
		}
		if j.ret == 0 {
			h.v("produce-hangs", "%s %d has not returned 200 s after faults stopped", j.kind, j.id)
			continue
		}
		if j.kind == "batch" {
			if len(j.recs) > 0 && j.dones == 0 {
				h.v("never-complete", "batch %d of %d records (callback %v) has not completed 200 s after faults stopped", j.id, len(j.recs), !j.nocb)
			}
			continue
		}
		for _, x := range j.recs {
			if !j.nocb && x.cbs == 0 {
				h.v("no-callback", "the outcome of record %d (%s) is not reported 200 s after faults stopped", x.id, j.kind)
			}
		}
	}
	for id := 1; id <= len(h.recs); id++ {
		x := h.recs[id]
		if x.known && x.err == nil && !x.valid(h) {
			h.v("invalid-success", "record %d is reported as produced to %s/%d, which does not exist", x.id, x.topic, x.spec.Outs[1])
		}
	}
	// order: what one goroutine submitted earlier to the same partition comes first
	for _, p := range h.ps {
		for t := range p.queues {
			for _, kind := range []bool{false, true} { // Producer and BatchProducer are separate clients
				last := map[string]*rec{}
				for id := 1; id <= len(h.recs); id++ {
					x := h.recs[id]
					if x.b.p != p || x.b.thread != t || (x.b.kind == "batch") != kind || !x.known || x.err != nil || len(x.log) == 0 {
						continue
					}
					k := fmt.Sprint(x.log[0].Topic, x.log[0].Part)
					h.r.OK("C17")
					if o := last[k]; o != nil && o.log[0].Off > x.log[0].Off {
						h.v("order", "record %d was produced before record %d by the same goroutine, but follows it in %s/%d", o.id, x.id, x.topic, x.log[0].Part)
					}
					last[k] = x
				}
			}
		}
	}
	h.r.Count("records", int64(len(h.recs)))
}
