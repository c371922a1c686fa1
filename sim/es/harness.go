// Package es simulates whole event source deployments: several members, the brokers they talk to,
// and everything that can go wrong between them.
package es

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"

	"runtime"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/google/uuid"
	"github.com/twmb/franz-go/pkg/kgo"
	"verifsim/core"
	"verifsim/simk"
)

const (
	srcTopic  = "src"
	dstTopic  = "dst"
	sideTopic = "side" // batch producer, not transactional
	groupID   = "grp"
	commitLog = "gkes_commit_log_grp"
	changeLog = "gkes_change_log_src_grp"
)

// srcEv is one source event and everything known about it.
type srcEv struct {
	id        int
	part      int32
	off       int64
	spec      *core.Ev
	rec       *simk.Rec
	committed int
	started   int
	doneBy    map[*inst]bool
	doneWin   *window
	doneAt    int64
	deser     map[*window]int
	texts     []string // what the bundled store was given for it
}

func (e *srcEv) visible() bool { return e.rec.Committed() }

type effect struct {
	recs map[int]*simk.Rec // output index (-1: change) -> record
	dup  bool
}

type window struct {
	in       *inst
	part     int32
	openAt   int64
	base     int64
	last     int64 // last offset handed over, -1: none
	busy     string
	revoked  bool
	willRev  int64
	store    *Store
	ticks    []int64
	tickOK   bool
	done     int
	lastTick int64
}

type inst struct {
	h          *H
	slot       *slot
	node       int32
	es         *streams.EventSource[*Store]
	startAt    int64
	ready      bool // ConsumeEvents called
	stopAt     int64
	stopKind   string
	doneAt     int64
	crashed    bool
	frozen     bool
	failAt     int64
	aborted    []*simk.Txn
	failErr    string
	failWant   streams.ErrorResponse
	evicted    int64
	wasEvicted bool
	goneAt     int64
	allStores  []*Store
	assigned   map[int32]bool // held, as far as the callbacks tell
	going      map[int32]bool // to be revoked, as far as the callbacks tell
	stale      map[int32]bool // held since before an eviction
	wins       map[int32]*window
	stores     map[int32]*Store
	unhealty   bool
	sched      *streams.AsyncJobScheduler[*Store, string, *srcEv]
	batcher    *streams.AsyncBatcher[*Store, string, *srcEv]
	bprod      *streams.BatchProducer[*Store]
	metrics    []streams.Metric
	emitted    []int64 // when the application's own metrics were
	metGate    chan struct{}
	dead       bool // no longer running for any reason
	txns       int
	commits    []*simk.Txn
	ijs        int
	wt         waiting
}

func (in *inst) alive() bool { return in != nil && !in.dead }

type slot struct {
	i       int
	in      *inst
	want    bool
	restart int64 // ns
	due     bool  // a restart is scheduled
}

type ijRec struct {
	id       string
	in       *inst
	part     int32
	issued   int64
	resolved int64
	nresolve int
	err      error
	execs    int
	async    bool
	emits    int
	win      *window
	execAt   int64
	complete bool
	owned    bool // window open, not being revoked, when issued
	inst     int
}

type H struct {
	r         *core.Run
	p         *core.Plan
	w         *simk.World
	c         *simk.Cluster // source
	sc        *simk.Cluster // state
	parts     int
	dparts    int
	slots     []*slot
	insts     []*inst
	byNode    [64]*inst
	nextNode  int32
	told      map[tellKey]bool // instructions to prepare which members were given
	src       map[int32][]*srcEv
	byID      map[int]*srcEv
	nextEv    int
	pos       map[int32]int64
	taint     map[int32]bool
	ijs       map[string]*ijRec
	ijEff     map[string]*effect
	ijTxn     map[string]*simk.Txn
	nIJ       int
	faultEnd  int64
	panicN    int
	openSrc   int
	frozen    map[int32]bool
	tainted   bool
	maxCover  int
	txnCover  []int
	ended     bool
	lastGen   int64
	posBy     map[int32]*inst // who moved the position last
	posWin    map[int32]*window
	evTxn     map[int]*simk.Txn
	probe     map[int]int64
	quietAt   int64
	dying     bool
	chRecs    map[int32][]*simk.Rec
	crashes   int
	base      int64 // wall clock at simulated time zero
	compacted bool
	trigs     []*trig
}

// trig is an armed action: it is carried out at the skip-th occurrence of something inside a member.
type trig struct {
	op   *core.Op
	skip int
	n    int
	evs  []*core.Ev // what is left of op.Evs
}

// event tells the armed actions what happens. Called with the world held.
func (h *H) event(name string, in *inst, q int32) {
	for _, t := range h.trigs {
		ev, act, _ := strings.Cut(t.op.Str, ":")
		if ev != name || t.n == 0 || t.op.M >= 0 && in.slot.i != t.op.M || h.w.Now() > h.faultEnd {
			continue
		}
		if t.skip > 0 {
			t.skip--
			continue
		}
		if act == "feed" { // more events arrive
			k := min(len(t.evs), 1+h.r.Rng.Intn(max(t.op.N, 1)))
			if k == 0 {
				t.n = 0
				continue
			}
			o := &core.Op{Kind: "ev", Part: q, Evs: t.evs[:k]}
			t.evs = t.evs[k:]
			if q < 0 || h.r.Rng.Intn(4) == 0 {
				o.Part = int32(h.r.Rng.Intn(int(h.p.K("parts"))))
			}
			h.w.After(h.r.Rng.I63(t.op.Arg*1000+1), func() { h.do(o) })
			continue
		}
		t.n--
		o := *t.op
		o.Kind, o.M, o.Part, o.Str = act, in.slot.i, q, ""
		if t.op.Key == 1 {
			o.M = (o.M + 1) % len(h.slots)
		}
		switch act {
		case "cut", "reset":
			o.Broker = int32(h.p.K("brokers"))
			if t.op.Broker > 0 {
				o.Broker = t.op.Broker
			}
		case "interject", "interjectall":
			o.Arg = int64(t.op.N) & 3
			o.N = t.op.N & 1
		}
		h.w.Trace("member %d: %s of partition %d: %s %d in %d us", in.node, ev, q, act, o.M, t.op.Arg)
		h.w.After(t.op.Arg*1000, func() { h.do(&o) })
	}
}

// linger is what the application's partition callbacks take.
func (h *H) linger() {
	if d := h.p.K("cb_delay"); d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

type uuidRand struct{ r *simk.Rng }

func (u uuidRand) Read(p []byte) (int, error) {
	simk.Atomic(func() {
		for i := range p {
			p[i] = byte(u.r.U64())
		}
	})
	return len(p), nil
}

var _ io.Reader = uuidRand{}

type traceLog struct{ w *simk.World }

func (t traceLog) line(l, f string, a ...any) {
	// formatting may draw from the runtime's generator (maps), so it happens whether or not the line is kept
	simk.Atomic(func() {
		x := fmt.Sprintf("%12.6f   [n%d g%d %s] ", float64(t.w.Now())/1e9, runtime.SimNode(), runtime.SimGoid(), l) + fmt.Sprintf(f, a...)
		if t.w.Verbose {
			t.w.Lines = append(t.w.Lines, x)
		}
	})
}

func (t traceLog) Tracef(f string, a ...any) {}
func (t traceLog) Debugf(f string, a ...any) { t.line("D", f, a...) }
func (t traceLog) Infof(f string, a ...any)  { t.line("I", f, a...) }
func (t traceLog) Warnf(f string, a ...any)  { t.line("W", f, a...) }
func (t traceLog) Errorf(f string, a ...any) { t.line("E", f, a...) }

// Store is the harness's state store.
type Store struct {
	in      *inst
	part    int32
	m       map[string]string
	b       bundled           // the bundled store under test, if any
	live    map[string]string // what it should hold
	changes int
	win     *window
	revoked int64
	late    int
	at      int64
	times   []int64
	sizes   []int
}

func (s *Store) ReceiveChange(rec streams.IncomingRecord) (err error) {
	if d := s.in.h.p.K("store_delay"); d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
	simk.Atomic(func() {
		s.changes++
		s.in.h.event("change", s.in, s.part)
		s.times = append(s.times, s.in.h.w.Now())
		s.sizes = append(s.sizes, len(rec.Key())+len(rec.Value()))
		h := s.in.h
		if s.win != nil {
			h.v("C04", "change-after-activation", s.part, "member %d partition %d: a change log record (offset %d) reached the store after the partition was activated", s.in.node, s.part, rec.Offset())
		}
		if rec.TopicPartition().Partition != s.part {
			h.v("C04", "wrong-partition", s.part, "store of partition %d got a change of partition %d", s.part, rec.TopicPartition().Partition)
		}
		if s.b != nil && string(rec.Key()) == poisonKey {
			// never part of what is expected
		} else if len(rec.Value()) == 0 {
			delete(s.m, string(rec.Key()))
		} else {
			s.m[string(rec.Key())] = string(rec.Value())
		}
		if s.b != nil {
			err = s.b.receive(rec)
		}
		if h.p.K("store_err") > 0 && s.changes%int(h.p.K("store_err")) == 0 {
			err = errors.New("store complains")
		}
	})
	return
}

func (s *Store) Revoked() {
	simk.Atomic(func() {
		s.revoked = s.in.h.w.Now() + 1
		if b, ok := s.b.(interface{ revoked() }); ok {
			b.revoked()
		}
	})
}

func (h *H) newStore(in *inst, tp streams.TopicPartition) *Store {
	s := &Store{in: in, part: tp.Partition, m: map[string]string{}, live: map[string]string{}}
	if h.p.K("simple") > 0 {
		s.b = h.newBundled(tp)
	}
	simk.Atomic(func() {
		s.at = h.w.Now()
		in.allStores = append(in.allStores, s)
		in.stores[tp.Partition] = s
		h.event("store", in, tp.Partition)
		if tp.Topic != changeLog {
			h.v("C04", "store-topic", tp.Partition, "store created for topic %q", tp.Topic)
		}
	})
	return s
}

// v records a violation that involves a source partition (-1: none).
func (h *H) v(prop, sig string, part int32, f string, a ...any) {
	if part >= 0 && h.taint[part] {
		sig = "zombie:" + sig
	}
	h.r.V(prop, sig, f, a...)
}

func Run(r *core.Run) {
	p := r.Plan
	h := &H{r: r, p: p, w: r.W, src: map[int32][]*srcEv{}, byID: map[int]*srcEv{}, pos: map[int32]int64{}, taint: map[int32]bool{},
		ijs: map[string]*ijRec{}, ijEff: map[string]*effect{}, ijTxn: map[string]*simk.Txn{}, frozen: map[int32]bool{}, evTxn: map[int]*simk.Txn{},
		probe: map[int]int64{}, posBy: map[int32]*inst{}, posWin: map[int32]*window{}, chRecs: map[int32][]*simk.Rec{}, told: map[tellKey]bool{}}
	h.base = time.Now().UnixNano() - h.w.Now()
	h.signals()
	uuid.SetRand(uuidRand{simk.NewRng(p.Seed + 77)})
	streams.InitLogger(streams.WrapLogger(traceLog{h.w}, streams.LogLevelDebug), kgoLevel(r))
	h.parts, h.dparts = int(p.K("parts")), int(p.K("dparts"))
	h.c = h.cluster("src", int(p.K("brokers")))
	h.sc = h.c
	if p.K("split") == 1 {
		h.sc = h.cluster("st", int(p.K("brokers")))
	}
	h.faultEnd = p.K("fault_end") * 1000
	if p.K("bootstrap") == 0 {
		h.c.CreateTopic(srcTopic, h.parts, nil, false, 0)
		h.sc.CreateTopic(commitLog, int(p.K("clparts")), map[string]string{"cleanup.policy": "compact"}, false, 0)
		h.sc.CreateTopic(changeLog, h.parts, map[string]string{"cleanup.policy": "compact"}, false, 0)
	} else {
		h.c.CreateTopic(srcTopic, h.parts, nil, false, 0)
	}
	h.sc.CreateTopic(dstTopic, h.dparts, nil, false, 0)
	h.c.CreateTopic(sideTopic, 2, nil, false, 0)
	h.sc.OnTxnDecide = h.onDecide
	h.sc.OnAppend = h.onAppend
	if h.c != h.sc {
		h.c.OnAppend = h.onAppend
	}
	g := h.c.Group(groupID)
	g.OnEvent = h.onGroup
	g.OnGen = h.onGen
	g.OnCommit = h.groupCommit
	h.old()
	for i := 0; i < int(p.K("members")); i++ {
		h.slots = append(h.slots, &slot{i: i})
	}
	go func() {
		for !h.ended {
			h.checkPanics()
			time.Sleep(20 * time.Millisecond)
		}
	}()
	for _, op := range p.Ops {
		op := op
		h.w.At(op.At*1000, func() { h.do(op) })
	}
	h.sleepUntil(h.faultEnd)
	h.recover()
	last := h.faultEnd
	for _, op := range p.Ops {
		if op.At*1000 > last {
			last = op.At * 1000
		}
	}
	deadline := last + 150e9
	for !h.allCommitted() || h.w.Now() < last {
		if h.w.Now() > deadline || h.overrun() {
			break
		}
		time.Sleep(100 * time.Millisecond)
		h.keepAlive()
	}
	h.liveness(deadline)
	h.settle()
	h.balanced()
	h.probes()
	h.mirrored()
	h.shutdown()
	h.final()
	h.ended = true
	h.blocked()
	h.stats()
}

func (h *H) overrun() bool { return runtime.SimGetStats().Overrun }

func (h *H) cluster(name string, brokers int) *simk.Cluster {
	p := h.p
	c := simk.NewCluster(h.w, name, simk.NewRng(p.Seed*31+uint64(len(name))), brokers)
	c.LatMin, c.LatMax = p.K("lat_min")*1000, p.K("lat_max")*1000
	c.MarkerMin, c.MarkerMax = p.K("marker_min")*1000, p.K("marker_max")*1000
	c.MetaLag = p.K("meta_lag") * 1000
	c.JoinDelay = p.K("join_delay") * 1000
	c.FetchBatches = int(p.K("fetch_batches"))
	return c
}

func (h *H) sleepUntil(t int64) {
	if d := t - h.w.Now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

func (h *H) checkPanics() {
	ps := runtime.SimPanics()
	for ; h.panicN < len(ps); h.panicN++ {
		p := ps[h.panicN]
		in := h.byNode[p.Node]
		txt := core.PanicText(p)
		h.w.Trace("PANIC node %d: %s", p.Node, txt)
		if in == nil {
			h.r.V("C07", "panic", "panic on node %d: %s", p.Node, txt)
			continue
		}
		if in.failWant == streams.FatallyExit && in.failAt > 0 {
			h.r.OK("C08")
			h.r.Count("fatal-exit", 1)
		} else if !in.dead || in.doneAt > 0 {
			h.r.V("C07", "panic:"+panicSig(txt), "member %d panicked: %s", p.Node, txt)
		}
		h.die(in, "panic")
	}
}

func panicSig(s string) string {
	if i := strings.Index(s, " < "); i > 0 {
		s = s[:i]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// die ends a member like a process crash.
func (h *H) die(in *inst, why string) {
	if in.dead {
		return
	}
	h.w.Trace("member %d dies: %s", in.node, why)
	in.dead, in.crashed = true, true
	in.goneAt = h.w.Now()
	runtime.SimFreeze(in.node, true)
	h.c.NodeGone(in.node)
	if h.sc != h.c {
		h.sc.NodeGone(in.node)
	}
	h.crashes++
	h.gone(in)
}

// gone arranges for the member's replacement.
func (h *H) gone(in *inst) {
	s := in.slot
	if s.in != in {
		return
	}
	s.in = nil
	if s.want && !h.dying {
		s.due = true
		h.w.After(s.restart+h.r.Rng.I63(200e6), func() {
			s.due = false
			if s.in == nil && s.want && !h.dying {
				h.start(s)
			}
		})
	}
}

func (h *H) start(s *slot) {
	if s.in != nil || h.nextNode >= 60 || h.dying {
		return
	}
	h.nextNode++
	in := &inst{h: h, slot: s, node: h.nextNode, startAt: h.w.Now(), wins: map[int32]*window{}, assigned: map[int32]bool{}, going: map[int32]bool{}, stale: map[int32]bool{}, stores: map[int32]*Store{}, metGate: make(chan struct{})}
	s.in, s.want = in, true
	h.insts = append(h.insts, in)
	h.byNode[in.node] = in
	h.w.Trace("slot %d starts as node %d", s.i, in.node)
	go func() {
		runtime.SimSetNode(in.node)
		es, err := h.build(in)
		if err != nil {
			simk.Atomic(func() {
				h.w.Trace("member %d did not start: %v", in.node, err)
				if !in.dead {
					in.dead = true
					h.r.Count("failed-starts", 1)
					h.c.NodeGone(in.node)
					h.sc.NodeGone(in.node)
					h.gone(in)
				}
			})
			return
		}
		in.es = es
		es.ConsumeEvents()
		simk.Atomic(func() {
			in.ready = true
			h.wait(in)
		})
		<-es.Done()
		simk.Atomic(func() { h.stopped(in) })
	}()
}

// stopped is called when a member signals that it is done.
func (h *H) stopped(in *inst) {
	if in.dead {
		return
	}
	in.doneAt = h.w.Now()
	in.dead = true
	h.w.Trace("member %d done (%s)", in.node, in.stopKind)
	if in.failAt > 0 {
		if in.es.State() != streams.Unhealthy {
			h.r.V("C08", "not-unhealthy", "member %d failed on %q but reports itself healthy", in.node, in.failErr)
		}
		h.r.OK("C08")
	} else if in.stopAt == 0 && in.es.State() == streams.Healthy {
		h.r.V("C07", "done-unasked", "member %d signalled completion without being stopped and without a failure", in.node)
	}
	h.r.OK("C07")
	select {
	case <-in.es.Done():
	default:
		h.r.V("C07", "done-once", "member %d: completion was signalled to one of those who wait for it only", in.node)
	}
	h.gone(in)
}

func (h *H) stop(in *inst, now bool) {
	if !in.alive() || !in.ready {
		return
	}
	kind := "stop"
	if now {
		kind = "stopnow"
	}
	if in.stopAt == 0 || (now && in.stopKind == "stop") {
		in.stopAt, in.stopKind = h.w.Now(), kind
	}
	h.w.Trace("member %d: %s", in.node, kind)
	go func() {
		runtime.SimSetNode(in.node)
		if now {
			in.es.StopNow()
		} else {
			told := false
			simk.Atomic(func() { told = in.alive() && h.tell(in) })
			if !told {
				in.es.Stop()
			}
		}
	}()
}

// recover ends all faults.
func (h *H) recover() {
	h.w.Trace("---- faults end")
	for _, c := range []*simk.Cluster{h.c, h.sc} {
		c.ClearRules()
		c.HealAll()
		for _, b := range c.BrokerIDs() {
			c.Restart(b)
		}
	}
	for n := range h.frozen {
		if in := h.byNode[n]; in != nil && !in.dead {
			runtime.SimFreeze(n, false)
			in.frozen = false
		}
	}
	h.frozen = map[int32]bool{}
	h.keepAlive()
}

// keepAlive makes sure that the deployment has, or will have, at least one member that is not stopping.
func (h *H) keepAlive() {
	for _, s := range h.slots {
		if s.in != nil && s.in.alive() && s.in.stopAt == 0 {
			return
		}
		if s.in == nil && s.want && s.due {
			return
		}
	}
	h.ensure()
}

// ensure keeps at least one member wanted.
func (h *H) ensure() {
	for _, s := range h.slots {
		if s.in == nil {
			h.start(s)
			return
		}
	}
	for _, s := range h.slots {
		if !s.want {
			s.want, s.restart = true, 200e6
		}
	}
}

func (h *H) allCommitted() bool {
	if h.openSrc > 0 {
		return false
	}
	for _, evs := range h.src {
		for _, e := range evs {
			if e != nil && e.visible() && e.off >= h.pos[e.part] {
				return false
			}
		}
	}
	return true
}

func (h *H) liveness(deadline int64) {
	if h.overrun() {
		h.r.V("C06", "spin", "the members burn %d scheduling steps in %.1f s of simulated time", runtime.SimGetStats().Steps, float64(h.w.Now())/1e9)
		return
	}
	var parts []int
	n := 0
	for p, evs := range h.src {
		for _, e := range evs {
			if e != nil && e.visible() {
				h.r.OK("C06")
				if e.off >= h.pos[e.part] {
					n++
					if len(parts) == 0 || parts[len(parts)-1] != int(p) {
						parts = append(parts, int(p))
					}
				}
			}
		}
	}
	sort.Ints(parts)
	if n > 0 {
		for _, p := range parts {
			h.v("C06", "stuck", int32(p), "%.0f s after faults stopped, %d events are still not committed (partitions %v, positions %v); members: %s", float64(h.w.Now()-h.faultEnd)/1e9, n, parts, h.pos, h.memberState())
			break
		}
	}
}

func (h *H) memberState() string {
	var b strings.Builder
	for _, in := range h.insts {
		if in.dead {
			continue
		}
		fmt.Fprintf(&b, "[n%d started %.1f", in.node, float64(in.startAt)/1e9)
		for _, p := range h.sortedWins(in) {
			w := in.wins[p]
			fmt.Fprintf(&b, " p%d(last %d%s)", p, w.last, w.busy)
		}
		b.WriteString("]")
	}
	return b.String()
}

func (h *H) sortedWins(in *inst) []int32 {
	var ps []int32
	for p := range in.wins {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	return ps
}

// settle waits until the group has been quiet for a while.
func (h *H) settle() {
	end := h.w.Now() + 60e9
	start := h.w.Now()
	for h.w.Now() < end && !h.overrun() {
		quiet := h.lastGen
		if start > quiet {
			quiet = start
		}
		if h.w.Now()-quiet > 6e9 {
			break
		}
		time.Sleep(500 * time.Millisecond)
	}
	h.r.Count("settle-ms", (h.w.Now()-start)/1e6)
}

func (h *H) shutdown() {
	h.dying = true
	// those who were told to stop before do so while the others still work
	for end := h.w.Now() + 110e9; h.w.Now() < end && !h.overrun(); {
		left := 0
		for _, in := range h.insts {
			if in.alive() && in.ready && (in.stopAt > 0 || in.failAt > 0) {
				left++
			}
		}
		h.checkPanics()
		if left == 0 {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	for _, s := range h.slots {
		s.want = false
	}
	h.sleepUntil(h.w.Now() + 10e6)
	n := 0
	for _, in := range h.insts {
		if in.alive() && in.ready {
			if in.stopAt == 0 {
				h.stop(in, h.p.K("end_stop") == 1)
				n++
				if h.p.K("stop_gap") > 0 {
					time.Sleep(time.Duration(h.p.K("stop_gap")) * time.Microsecond)
				}
			}
		}
	}
	end := h.w.Now() + 200e9
	for h.w.Now() < end && !h.overrun() {
		left := 0
		for _, in := range h.insts {
			if in.alive() && in.ready {
				left++
			}
		}
		h.checkPanics()
		if left == 0 {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	time.Sleep(5 * time.Second)
	h.checkPanics()
}

func encodeEv(id int, s *core.Ev) *simk.Rec {
	rec := &simk.Rec{Key: []byte(s.Key)}
	v := "ev|" + strconv.Itoa(id) + "|" + s.Type + "|"
	if s.Type == "bad" {
		v = "!garbage|" + strconv.Itoa(id)
	}
	if s.Size > 0 {
		v += strings.Repeat(string(rune('a'+id%26)), s.Size)
	}
	rec.Val = []byte(v)
	t := s.Type
	if t == "bad" {
		t = "A"
	}
	rec.Hdrs = append(rec.Hdrs, simk.Header{Key: "x-id", Val: []byte(strconv.Itoa(id))})
	if t != "" {
		rec.Hdrs = append(rec.Hdrs, simk.Header{Key: streams.RecordTypeHeaderKey, Val: []byte(t)})
	}
	if id%3 == 0 {
		rec.Hdrs = append(rec.Hdrs, simk.Header{Key: "x-tail", Val: []byte("t" + strconv.Itoa(id))})
	}
	return rec
}

// foreign makes the record the way an application with a client of its own does; empty if it is what it has to be.
func foreign(rec *simk.Rec, typ string, id int) (bad string) {
	var k *kgo.Record
	switch id % 4 {
	case 0:
		r := streams.NewRecord().WithKey(rec.Key[:len(rec.Key)/2], rec.Key[len(rec.Key)/2:]).WithRecordType(typ)
		r.WriteValueString(string(rec.Val))
		for _, x := range rec.Hdrs {
			if x.Key != streams.RecordTypeHeaderKey {
				r = r.WithHeader(x.Key, x.Val)
			}
		}
		k = r.ToKafkaRecord()
		r.Release()
	case 1:
		k = &kgo.Record{Key: rec.Key, Value: rec.Val}
		for _, x := range rec.Hdrs {
			if x.Key != streams.RecordTypeHeaderKey {
				k.Headers = append(k.Headers, kgo.RecordHeader{Key: x.Key, Value: x.Val})
			}
		}
		if typ != "" {
			streams.SetRecordType(k, typ)
		}
	default:
		return ""
	}
	if string(k.Key) != string(rec.Key) || string(k.Value) != string(rec.Val) {
		return fmt.Sprintf("key %q value %q became key %q value %q", rec.Key, first(string(rec.Val), 20), k.Key, first(string(k.Value), 20))
	}
	for _, x := range rec.Hdrs {
		n := 0
		for _, y := range k.Headers {
			if y.Key == x.Key && string(y.Value) == string(x.Val) {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("header %s is there %d times", x.Key, n)
		}
	}
	if len(k.Headers) != len(rec.Hdrs) {
		return fmt.Sprintf("%d headers became %d", len(rec.Hdrs), len(k.Headers))
	}
	rec.Key, rec.Val, rec.Hdrs = k.Key, k.Value, nil // the very slices: nobody may write to them again
	for _, y := range k.Headers {
		rec.Hdrs = append(rec.Hdrs, simk.Header{Key: y.Key, Val: y.Value})
	}
	return ""
}

// addEvent registers an event; the record is appended by the caller.
func (h *H) addEvent(part int32, s *core.Ev) *srcEv {
	h.nextEv++
	e := &srcEv{id: h.nextEv, part: part, spec: s, rec: encodeEv(h.nextEv, s), deser: map[*window]int{}, doneBy: map[*inst]bool{}}
	h.byID[e.id] = e
	typ := s.Type
	if typ == "bad" {
		typ = "A"
	}
	if bad := foreign(e.rec, typ, e.id); bad != "" {
		h.r.V("C11", "foreign", "event %d, made into a record for another client: %s", e.id, bad)
	}
	return e
}

func (h *H) onAppend(p *simk.Partition, recs []*simk.Rec) {
	if p.Topic == srcTopic {
		for _, r := range recs {
			var e *srcEv
			if r.Ctrl == 0 {
				if v, ok := r.Header("x-id"); ok {
					id, _ := strconv.Atoi(string(v))
					e = h.byID[id]
					e.off = r.Off
					e.rec = r
				}
			}
			h.src[p.Num] = append(h.src[p.Num], e)
		}
	}
}

var errBad = errors.New("does not decode")

func decodeEv(in *inst, want string) func(streams.IncomingRecord) (*decoded, error) {
	return func(rec streams.IncomingRecord) (*decoded, error) {
		if strings.HasPrefix(string(rec.Value()), "!") {
			return nil, errBad
		}
		f := strings.SplitN(string(rec.Value()), "|", 4)
		if len(f) != 4 {
			return nil, errBad
		}
		id, err := strconv.Atoi(f[1])
		return &decoded{id: id, typ: f[2], via: want}, err
	}
}

type decoded struct {
	id  int
	typ string
	via string
}

func (h *H) build(in *inst) (*streams.EventSource[*Store], error) {
	p := h.p
	cfg := streams.EventSourceConfig{
		GroupId: groupID, Topic: srcTopic, NumPartitions: h.parts, SourceCluster: h.c,
		CommitLogPartitions: int(p.K("clparts")),
		CommitOffsets:       p.K("commit_offsets") == 1,
		EosConfig: streams.EosConfig{PoolSize: int(p.K("pool")), PendingTxnCount: int(p.K("pending")), TargetBatchSize: int(p.K("target")),
			MaxBatchSize: int(p.K("maxbatch")), BatchDelay: p.D("batch_delay")},
		OnPartitionAssigned: func(_ *streams.Source, q int32) {
			simk.Atomic(func() {
				h.nowAssigned(in, q)
				h.event("assigned", in, q)
			})
			h.linger()
		},
		OnPartitionActivated: func(_ *streams.Source, q int32) {
			simk.Atomic(func() { h.activated(in, q); h.event("activated", in, q) })
			h.linger()
		},
		OnPartitionWillRevoke: func(_ *streams.Source, q int32) {
			simk.Atomic(func() { h.willRevoke(in, q); h.event("willrevoke", in, q) })
			h.linger()
		},
		OnPartitionRevoked: func(_ *streams.Source, q int32) {
			simk.Atomic(func() { h.revoked(in, q); h.event("revoked", in, q) })
			h.linger()
		},
	}
	if h.sc != h.c {
		cfg.StateCluster = h.sc
	}
	if p.K("eos_default") > 0 {
		cfg.EosConfig = streams.EosConfig{}
	}
	switch p.K("balance") {
	case 5: // not all members know the incremental strategy (yet, or any longer)
		cfg.BalanceStrategies = []streams.BalanceStrategy{streams.CooperativeStickyBalanceStrategy}
		if in.slot.i%2 == 1 {
			cfg.BalanceStrategies = []streams.BalanceStrategy{streams.IncrementalBalanceStrategy, streams.CooperativeStickyBalanceStrategy}
		}
	case 1:
		cfg.BalanceStrategies = []streams.BalanceStrategy{streams.IncrementalBalanceStrategy, streams.CooperativeStickyBalanceStrategy}
	case 2:
		cfg.BalanceStrategies = []streams.BalanceStrategy{streams.CooperativeStickyBalanceStrategy}
	case 3:
		cfg.BalanceStrategies = []streams.BalanceStrategy{streams.RangeBalanceStrategy}
	case 4:
		cfg.BalanceStrategies = []streams.BalanceStrategy{streams.RoundRobinBalanceStrategy}
	}
	if m := p.K("metrics"); m > 0 {
		cfg.MetricsHandler = func(x streams.Metric) {
			simk.Atomic(func() { in.metrics = append(in.metrics, x) })
			switch m {
			case 2:
				time.Sleep(50 * time.Millisecond)
			case 3:
				<-in.metGate
			}
		}
	}
	if pol := p.K("txn_policy"); pol > 0 || p.K("txn_handler") == 1 {
		cfg.TxnErrorHandler = func(err error) streams.ErrorResponse {
			want := streams.FailConsumer
			if pol == 1 {
				want = streams.FatallyExit
			}
			simk.Atomic(func() { h.failed(in, err, want) })
			return want
		}
	}
	if p.K("deser") == 1 {
		cfg.DeserializationErrorHandler = func(ec streams.ErrorContext, typ string, err error) streams.ErrorResponse {
			simk.Atomic(func() { h.deserFailed(in, ec, typ, err) })
			return streams.Continue
		}
	}
	es, err := streams.NewEventSource[*Store](cfg, func(tp streams.TopicPartition) *Store { return h.newStore(in, tp) },
		func(ec *streams.EventContext[*Store], rec streams.IncomingRecord) streams.ExecutionState {
			return h.handle(in, ec, rec, "")
		})
	if err != nil {
		return nil, err
	}
	for _, t := range []string{"A", "B"} {
		t := t
		streams.RegisterEventType(es, decodeEv(in, t), func(ec *streams.EventContext[*Store], d *decoded) streams.ExecutionState {
			rec, _ := ec.Input()
			simk.Atomic(func() {
				if e := h.byID[d.id]; e == nil || e.spec.Type != d.typ || strconv.Itoa(d.id) != string(rec.HeaderValue("x-id")) {
					h.v("C11", "wrong-value", ec.TopicPartition().Partition, "processor %s got the decoded value %+v for record %q", t, d, rec.HeaderValue("x-id"))
				}
			})
			return h.handle(in, ec, rec, t)
		}, t)
	}
	if every := p.D("ij_every"); every > 0 {
		es.ScheduleInterjection(func(ec *streams.EventContext[*Store], when time.Time) streams.ExecutionState {
			return h.tick(in, ec, when)
		}, every, p.D("ij_jitter"))
	}
	if p.K("async") > 0 {
		var err error
		in.sched, err = streams.CreateAsyncJobScheduler(es, func(k string, e *srcEv) error {
			if e.spec.Delay > 0 {
				time.Sleep(time.Duration(e.spec.Delay) * time.Microsecond)
			}
			return nil
		}, func(ec *streams.EventContext[*Store], k string, e *srcEv, err error) streams.ExecutionState {
			return h.finish(in, ec, e)
		}, streams.SchedulerConfig{Concurrency: int(p.K("as_conc")), WorkerQueueDepth: int(p.K("as_depth")), MaxConcurrentKeys: int(p.K("as_keys"))})
		if err != nil {
			return nil, err
		}
		in.batcher = streams.NewAsyncBatcher[*Store](func(items []*streams.BatchItem[string, *srcEv]) {
			time.Sleep(time.Duration(len(items)) * 100 * time.Microsecond)
		}, int(p.K("ab_max")), int(p.K("ab_conc")), p.D("ab_delay"))
		in.bprod = streams.NewBatchProducer[*Store](streams.Destination{DefaultTopic: sideTopic, Cluster: h.c})
	}
	return es, nil
}

var _ kgo.Opt

func kgoLevel(r *core.Run) streams.LogLevel {
	if r.Plan.K("kgo_debug") == 1 {
		return streams.LogLevelDebug
	}
	return streams.LogLevelError
}
