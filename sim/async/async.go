// Package async simulates the AsyncJobScheduler (C14, C15) and the AsyncBatcher (C16) of streams
// on their own: callers, workers, limit changes and shutdown in all orders, with observers on the
// functions the user supplies.
package async

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sort"
	"time"

	"verifsim/core"
	"verifsim/simk"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
)

func init() {
	core.Scenarios["async"] = core.Scenario{Gen: gen, Run: run}
}

// store satisfies streams.StateStore.
type store struct{}

func (store) ReceiveChange(streams.IncomingRecord) error { return nil }
func (store) Revoked()                                   {}

type value struct{ id int }

type sched = streams.AsyncJobScheduler[store, string, *value]

type job struct {
	id, part   int
	key        string
	val        *value
	ec         *streams.EventContext[store]
	dur        int64
	fail       error
	refused    bool  // Schedule was called once the scheduler had halted
	call, ret  int64 // sequence numbers; 0: not yet
	callAt     int64
	retAt      int64
	start, end int64
	done       int64 // handed to the completer
	fin        int64
	starts     int
	dones      int
	fins       int
}

type part struct {
	id    int
	queue []*job
	kick  chan struct{}
	comp  []completion // handed back, not yet finalized
	ckick chan struct{}
}

type completion struct {
	j *job
	f func() streams.ExecutionState
}

type H struct {
	r        *core.Run
	p        *core.Plan
	s        *sched
	rs       sak.RunStatus
	parts    []*part
	jobs     []*job
	byID     map[int]*job
	seq      int64
	conc     int
	limit    int // key limit in force, or the highest which may be
	limitLow int
	cand     []int // the limits which are being set
	setting  int
	allowed  int // the highest limit since the held keys last fit
	depth    int // highest queue depth so far
	curDepth int
	running  map[string]*job
	held     map[string]int // accepted, not yet processed
	heldAt   map[string]int64
	endAt    map[string]int64 // when the last job of a key ended
	halting  bool
	halted   int64
	calling  int
	stall    map[string]int64
	full     bool // the final wait is over
	nofinal  bool
	finDelay int64
}

func (h *H) now() int64 { return h.r.W.Now() }
func (h *H) tick() int64 {
	h.seq++
	return h.seq
}

// completer is what the partition worker is to the scheduler: it takes finished jobs back.
type completer struct {
	h *H
	j *job
}

func (c completer) AsyncComplete(aj streams.AsyncJob[store]) {
	h, j := c.h, c.j
	simk.Atomic(func() {
		j.dones++
		j.done = h.tick()
		h.r.OK("C14")
		h.r.W.Trace("job %d is handed back", j.id)
		if j.starts == 0 {
			h.r.V("C14", "unprocessed-complete", "job %d (key %s) is reported as done, but was never processed", j.id, j.key)
		} else if j.end == 0 {
			h.r.V("C14", "early-complete", "job %d (key %s) is reported as done while it is being processed", j.id, j.key)
		}
		if j.dones > 1 {
			h.r.V("C14", "complete-twice", "job %d (key %s) is handed back %d times", j.id, j.key, j.dones)
		}
		for _, o := range h.jobs {
			if o.key == j.key && o != j && o.ret > 0 && o.ret < j.call && o.starts > 0 && o.dones == 0 {
				h.r.V("C14", "complete-order", "key %s: job %d is handed back before job %d, which was scheduled first", j.key, j.id, o.id)
			}
		}
		p := h.parts[j.part]
		p.comp = append(p.comp, completion{j, aj.Finalize})
		select {
		case p.ckick <- struct{}{}:
		default:
		}
	})
}

func (h *H) process(k string, v *value) error {
	var j *job
	simk.Atomic(func() {
		h.r.OK("C14")
		if v == nil || h.byID[v.id] == nil {
			h.r.V("C14", "foreign-value", "the processor is given a value nobody scheduled: key %q value %v", k, v)
			return
		}
		j = h.byID[v.id]
		j.starts++
		h.r.W.Trace("job %d (key %s) starts", j.id, j.key)
		if k != j.key || v != j.val {
			h.r.V("C14", "mixed-up", "job %d was scheduled with key %s, but is processed with key %s", j.id, j.key, k)
		}
		if j.starts > 1 {
			h.r.V("C14", "processed-twice", "job %d (key %s) is processed %d times", j.id, j.key, j.starts)
		}
		if j.refused {
			h.r.V("C14", "processed-after-halt", "job %d was scheduled after the scheduler halted, but is processed", j.id)
		}
		if o := h.running[k]; o != nil {
			h.r.V("C14", "overlap", "key %s: job %d starts while job %d is running", k, j.id, o.id)
		}
		for _, o := range h.jobs {
			if o.key == k && o != j && o.starts == 0 && o.ret > 0 && o.ret < j.call {
				h.r.V("C14", "order", "key %s: job %d is processed before job %d, whose scheduling had finished before", k, j.id, o.id)
			}
		}
		j.start = h.tick()
		h.running[k] = j
		h.r.Count("max-running", 0)
		if n := int64(len(h.running)); n > h.r.Res.Counts["max-running"] {
			h.r.Res.Counts["max-running"] = n
		}
		h.r.OK("C15")
		if len(h.running) > h.conc {
			h.r.V("C15", "too-many-running", "%d jobs are running at once, the concurrency is %d", len(h.running), h.conc)
		}
		h.changed()
	})
	if j == nil {
		return nil
	}
	if j.dur > 0 {
		time.Sleep(time.Duration(j.dur))
	}
	simk.Atomic(func() {
		j.end = h.tick()
		h.r.W.Trace("job %d ends", j.id)
		if h.running[k] == j {
			delete(h.running, k)
		}
		h.endAt[k] = h.now()
		h.unhold(j)
		h.changed()
	})
	return j.fail
}

func (h *H) unhold(j *job) {
	if j.ret > 0 && j.starts == 1 {
		if h.held[j.key]--; h.held[j.key] <= 0 {
			delete(h.held, j.key)
		}
	}
}

func (h *H) finalize(ec *streams.EventContext[store], k string, v *value, err error) streams.ExecutionState {
	simk.Atomic(func() {
		h.r.OK("C14")
		if v == nil || h.byID[v.id] == nil {
			h.r.V("C14", "foreign-value", "the finalizer is given a value nobody scheduled: key %q value %v", k, v)
			return
		}
		j := h.byID[v.id]
		j.fins++
		if j.fins > 1 {
			h.r.V("C14", "finalized-twice", "job %d is finalized %d times", j.id, j.fins)
		}
		if ec != j.ec || k != j.key || v != j.val || err != j.fail {
			h.r.V("C14", "finalizer-args", "job %d (key %s, error %v) is finalized with key %s, error %v, its own event: %v", j.id, j.key, j.fail, k, err, ec == j.ec)
		}
	})
	if h.finDelay > 0 {
		time.Sleep(time.Duration(h.finDelay))
	}
	return streams.Complete
}

// changed keeps track of limits which are in force and of what is held.
func (h *H) changed() {
	if h.calling > 0 || h.setting > 0 {
		return
	}
	n := len(h.held)
	for k, t := range h.endAt { // the scheduler may not have let go of these yet
		if h.held[k] == 0 && h.now()-t < 3e9 {
			n++
		}
	}
	if n <= max(h.limit, h.conc) {
		h.allowed = max(h.limit, h.conc)
	}
}

func (h *H) call(j *job) {
	simk.Atomic(func() {
		j.call, j.callAt = h.tick(), h.now()
		j.refused = h.halted > 0
		h.calling++
		h.r.W.Trace("job %d (key %s, part %d) is scheduled", j.id, j.key, j.part)
	})
	st := h.s.Schedule(j.ec, j.key, j.val)
	simk.Atomic(func() {
		j.ret, j.retAt = h.tick(), h.now()
		h.calling--
		h.r.W.Trace("job %d is accepted", j.id)
		if st != streams.Incomplete {
			h.r.V("C14", "schedule-state", "Schedule of job %d returns %v", j.id, st)
		}
		if h.halting {
			return // it may have been dropped
		}
		if j.end == 0 {
			if h.held[j.key]++; h.held[j.key] == 1 {
				h.heldAt[j.key] = h.tick()
			}
		}
		h.r.OK("C15")
		if n := len(h.held); n > h.allowed {
			h.r.V("C15", "too-many-keys", "%d keys are held with job %d, at most %d were allowed at any time since they last fit", n, j.id, h.allowed)
		}
		if n, m := h.held[j.key], max(h.depth, 2)+1; n > m {
			h.r.V("C15", "queue-too-deep", "%d jobs are accepted and not yet processed for key %s, the queue depth is %d", n, j.key, h.depth)
		}
		h.changed()
	})
}

func (p *part) caller(h *H) {
	for {
		for len(p.queue) > 0 {
			var j *job
			simk.Atomic(func() { j = p.queue[0]; p.queue = p.queue[1:] })
			h.call(j)
		}
		<-p.kick
	}
}

func (p *part) completer(h *H) {
	for {
		for len(p.comp) > 0 {
			var c completion
			simk.Atomic(func() { c = p.comp[0]; p.comp = p.comp[1:] })
			st := c.f()
			simk.Atomic(func() {
				c.j.fin = h.tick()
				h.r.W.Trace("job %d is finalized", c.j.id)
				if st != streams.Complete {
					h.r.V("C14", "finalize-state", "the finalizer of job %d returns Complete, but %v is reported", c.j.id, st)
				}
				if !h.nofinal && c.j.fins == 0 {
					h.r.V("C14", "not-finalized", "job %d is finalized without its finalizer", c.j.id)
				}
			})
		}
		<-p.ckick
	}
}

const patience = 5e9

// watch looks for work that could proceed but does not.
func (h *H) watch() {
	for {
		time.Sleep(100 * time.Millisecond)
		h.r.OK("C15")
		could := map[string]string{}
		if h.halted == 0 {
			if len(h.running) < h.conc {
				for _, j := range h.jobs {
					if j.ret > 0 && j.starts == 0 && h.running[j.key] == nil && !j.refused {
						could["key "+j.key] = fmt.Sprintf("job %d (key %s) is accepted and not processed, only %d of %d workers are busy", j.id, j.key, len(h.running), h.conc)
					}
				}
			}
		}
		for _, j := range h.jobs {
			if j.call == 0 || j.ret > 0 {
				continue
			}
			if h.halted > 0 {
				could[fmt.Sprint("caller ", j.id)] = fmt.Sprintf("the caller of job %d is not released, though the scheduler has halted", j.id)
			} else if n := h.held[j.key]; n > 0 && h.heldAt[j.key] < j.call && n < max(h.curMin(), 2) {
				could[fmt.Sprint("caller ", j.id)] = fmt.Sprintf("the caller of job %d (key %s) is held back, though only %d jobs are queued for the key and the queue depth is %d", j.id, j.key, n, h.curMin())
			} else if n == 0 && len(h.held) < h.limitLow {
				could[fmt.Sprint("caller ", j.id)] = fmt.Sprintf("the caller of job %d (key %s) is held back, though only %d of %d keys are held", j.id, j.key, len(h.held), h.limitLow)
			}
		}
		ks := make([]string, 0, len(could))
		for k := range could {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for k := range h.stall {
			if _, ok := could[k]; !ok {
				delete(h.stall, k)
			}
		}
		for _, k := range ks {
			if h.stall[k] == 0 {
				h.stall[k] = h.now()
			} else if h.now()-h.stall[k] > patience {
				h.r.V("C15", "stalled", "for %.0f s: %s", float64(patience)/1e9, could[k])
			}
		}
	}
}

// curMin: a key that is held keeps the queue it was given, which may be shallower than what is set now
func (h *H) curMin() int { return h.curDepth }

func (h *H) newJob(o *core.Op) *job {
	j := &job{id: o.ID, part: int(o.Part), key: fmt.Sprintf("k%d", o.Key), val: &value{o.ID}, dur: o.Dur * 1000}
	if o.Arg != 0 {
		j.fail = errors.New(fmt.Sprint("failed ", o.ID))
	}
	j.ec = streams.MockEventContext[store](context.Background(), nil, "", store{}, completer{h, j}, nil)
	return j
}

func run(r *core.Run) {
	if r.Plan.K("batch") > 0 {
		runBatch(r)
		return
	}
	p := r.Plan
	h := &H{r: r, p: p, byID: map[int]*job{}, running: map[string]*job{}, held: map[string]int{}, heldAt: map[string]int64{}, endAt: map[string]int64{}, stall: map[string]int64{}, rs: sak.NewRunStatus(context.Background()),
		conc: int(p.K("conc")), depth: int(p.K("depth")), curDepth: int(p.K("depth")), nofinal: p.K("nofinal") > 0, finDelay: p.K("fin_delay") * 1000}
	h.limit = max(int(p.K("maxkeys")), h.conc)
	h.limitLow = h.limit
	h.allowed = h.limit
	var err error
	var fin streams.AsyncJobFinalizer[store, string, *value]
	if !h.nofinal {
		fin = h.finalize
	}
	runtime.SimSetNode(1)
	h.s, err = streams.NewAsyncJobScheduler(h.rs, h.process, fin, streams.SchedulerConfig{Concurrency: h.conc, WorkerQueueDepth: h.depth, MaxConcurrentKeys: int(p.K("maxkeys"))})
	runtime.SimSetNode(0)
	if err != nil {
		r.Res.Inconcl = err.Error()
		return
	}
	for i := 0; i < int(p.K("parts")); i++ {
		pt := &part{id: i, kick: make(chan struct{}, 1), ckick: make(chan struct{}, 1)}
		h.parts = append(h.parts, pt)
		runtime.SimSetNode(1)
		go pt.caller(h)
		go pt.completer(h)
		runtime.SimSetNode(0)
	}
	go h.watch()
	var work int64
	for _, o := range p.Ops {
		o := o
		switch o.Kind {
		case "job":
			j := h.newJob(o)
			h.jobs, h.byID[j.id] = append(h.jobs, j), j
			work += j.dur + h.finDelay
			r.W.At(o.At*1000, func() {
				pt := h.parts[j.part]
				pt.queue = append(pt.queue, j)
				select {
				case pt.kick <- struct{}{}:
				default:
				}
			})
		case "limit":
			r.Fault("key-limit-change")
			at(r, o.At*1000, func() {
				simk.Atomic(func() {
					r.W.Trace("key limit %d", o.N)
					if h.setting++; h.setting == 1 {
						h.cand = nil
					}
					h.cand = append(h.cand, o.N)
					h.allowed = max(h.allowed, o.N) // from some time during the call on
				})
				h.s.SetMaxConcurrentKeys(o.N)
				simk.Atomic(func() {
					if h.setting--; h.setting == 0 {
						h.limit, h.limitLow = slices.Max(h.cand), slices.Min(h.cand)
					}
					h.changed()
				})
			})
		case "depth":
			r.Fault("queue-depth-change")
			at(r, o.At*1000, func() {
				simk.Atomic(func() { h.depth = max(h.depth, o.N); h.curDepth = min(h.curDepth, o.N) })
				h.s.SetWorkerQueueDepth(o.N)
			})
		case "halt":
			r.Fault("halt")
			at(r, o.At*1000, func() {
				simk.Atomic(func() { r.W.Trace("halt"); h.halting = true })
				h.rs.Halt()
				simk.Atomic(func() { h.halted = h.now() })
			})
		}
	}
	last := int64(0)
	for _, o := range p.Ops {
		last = max(last, o.At*1000)
	}
	halts := false
	for _, o := range p.Ops {
		halts = halts || o.Kind == "halt"
	}
	// everything is done one after the other, at worst
	time.Sleep(time.Duration(last + work + int64(len(h.jobs))*40e6 + 2*patience))
	n := 0
	for _, j := range h.jobs {
		r.OK("C14")
		if j.dones > 0 {
			n++
		}
		switch {
		case j.starts > 0 && j.dones == 0:
			r.V("C14", "not-handed-back", "job %d (key %s) was processed, but is not handed back for finalization", j.id, j.key)
		case j.dones > 0 && j.fin == 0:
			r.Res.Inconcl = "completer did not finish"
		case halts:
		case j.call > 0 && j.ret == 0:
			r.V("C15", "never-released", "the caller of job %d (key %s) is still held back, though all else is long done", j.id, j.key)
		case j.starts == 0:
			r.V("C14", "lost", "job %d (key %s) was scheduled, but not processed", j.id, j.key)
		}
	}
	r.Count("jobs", int64(len(h.jobs)))
	r.Count("jobs-done", int64(n))
	r.OK("C15")
	a := runtime.SimGetStats().Steps
	time.Sleep(10 * time.Second)
	b := runtime.SimGetStats()
	if d := b.Steps - a; d > 20000 || b.Overrun {
		r.V("C15", "spins", "the scheduler takes %d steps in 10 s although there is nothing to do", d)
	}
}

// at runs f as code of the system under test at time t.
func at(r *core.Run, t int64, f func()) {
	r.W.At(t, func() {
		runtime.SimSetNode(1)
		go f()
		runtime.SimSetNode(0)
	})
}

func gen(profile string, seed uint64) *core.Plan {
	g := simk.NewRng(seed ^ simk.Hash64("async/"+profile))
	p := &core.Plan{Knobs: map[string]int64{}, Sched: core.DefaultSched(g)}
	p.Sched.MaxSteps = 6e6
	if profile == "batch" {
		genBatch(g, p)
		return p
	}
	parts := g.Range(1, 4)
	conc := g.Pick(1, 1, 2, 2, 3, 4, 8)
	p.Set("parts", int64(parts))
	p.Set("conc", int64(conc))
	depth := g.Pick(0, 1, 2, 2, 3, 5, 10, 100)
	p.Set("depth", int64(depth))
	maxkeys := g.Pick(0, 1, 2, 2, 3, 4, 8, 100)
	p.Set("maxkeys", int64(maxkeys))
	if g.P(0.2) {
		p.Set("nofinal", 1)
	}
	if g.P(0.2) {
		p.Set("fin_delay", int64(g.Pick(10, 500, 5000)))
	}
	nkeys := g.Pick(1, 2, 3, 5, 8, 20)
	n := g.Pick(5, 20, 40, 80, 150)
	span := int64(g.Pick(1, 1000, 20000, 200000, 2000000))
	durs := simk.Pick(g, []int{0}, []int{0, 0, 100}, []int{0, 100, 1000, 5000}, []int{1000}, []int{10, 20000})
	shared := g.P(0.5)
	fail := g.P(0.3)
	for i := 0; i < n; i++ {
		o := p.Add(&core.Op{At: g.I63(span), Kind: "job", Part: int32(g.Intn(parts)), Key: g.Intn(nkeys), Dur: int64(durs[g.Intn(len(durs))])})
		if g.P(0.3) { // bursts
			o.At = span / 2
		}
		if !shared {
			o.Key = int(o.Part)*100 + o.Key
		}
		if fail && g.P(0.3) {
			o.Arg = 1
		}
	}
	if g.P(0.3) { // a job that blocks its key
		for i := g.Range(1, 2); i > 0; i-- {
			p.Ops[g.Intn(len(p.Ops))].Dur = 20e6
		}
	}
	switch profile {
	case "dyn":
		for i := g.Range(1, 8); i > 0; i-- {
			if g.P(0.7) {
				p.Add(&core.Op{At: g.I63(span + 5000), Kind: "limit", N: g.Pick(1, 1, 2, 3, 5, 8, 20, 200)})
			} else {
				p.Add(&core.Op{At: g.I63(span + 5000), Kind: "depth", N: g.Pick(0, 1, 2, 3, 8, 50)})
			}
		}
	case "halt":
		p.Add(&core.Op{At: g.I63(span + 5000), Kind: "halt"})
		if g.P(0.3) {
			p.Add(&core.Op{At: g.I63(span + 5000), Kind: "limit", N: g.Pick(1, 2, 8, 200)})
		}
	}
	p.Sort()
	return p
}
