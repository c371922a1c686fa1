// Package gcl simulates streams.GlobalChangeLog (C18): members that follow a topic while outside producers
// write to it, in and outside of transactions, and while brokers and the network fail.
package gcl

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"time"

	"verifsim/core"
	"verifsim/flt"
	"verifsim/simk"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/twmb/franz-go/pkg/kmsg"
)

func init() { core.Scenarios["gcl"] = core.Scenario{Gen: gen, Run: run} }

const topic = "log"

func gen(profile string, seed uint64) *core.Plan {
	r := simk.NewRng(seed*7013 + simk.Hash64("gcl/"+profile))
	p := &core.Plan{Knobs: map[string]int64{}, Sched: core.DefaultSched(r)}
	set := p.Set
	nb, np, nm := r.Range(1, 3), r.Range(1, 4), r.Range(1, 2)
	set("brokers", int64(nb))
	set("parts", int64(np))
	set("members", int64(nm))
	set("lat_min", int64(r.Pick(20, 100, 500)))
	set("lat_max", int64(r.Pick(600, 2000, 5000)))
	set("fetch_batches", int64(r.Pick(0, 0, 1, 2, 5)))
	set("fail_pct", int64(r.Pick(0, 0, 5, 50)))
	set("slow", int64(r.Pick(0, 0, 0, 100, 3000, 50000)))
	set("meta_lag", int64(r.Pick(0, 0, 500, 50000)))
	if r.P(0.1) {
		set("late", int64(r.Pick(100000, 3000000)))
	}
	end := r.Pick(3, 8, 20) * 1e6
	set("end", int64(end))
	at := func() int64 { return int64(r.Intn(end)) }
	for m := 0; m < nm; m++ {
		n := np
		if r.P(0.1) {
			n = r.Range(1, np+1)
		}
		set("n"+strconv.Itoa(m), int64(n))
		set("ext"+strconv.Itoa(m), int64(r.Intn(2)))
		o := &core.Op{Kind: "start", M: m}
		if r.P(0.4) {
			o.At = at()
		}
		p.Add(o)
		if r.P(0.15) { // start paused
			p.Add(&core.Op{At: o.At, Kind: "pauseall", M: m})
		}
	}
	for n := r.Range(10, 80); n > 0; n-- {
		o := &core.Op{At: at(), Kind: "w", Part: int32(r.Intn(np)), N: r.Pick(1, 1, 2, 3, 10), Arg: int64(r.Pick(0, 10, 1000)), Str: "plain"}
		if r.P(0.2) {
			o.At = 0
		}
		switch {
		case r.P(0.3):
			o.Str, o.Dur = "commit", int64(r.Pick(0, 1000, 100000, 3000000))
		case r.P(0.25):
			o.Str, o.Dur = "abort", int64(r.Pick(0, 1000, 100000, 3000000))
		}
		p.Add(o)
	}
	if profile != "calm" {
		if profile == "pause" || r.P(0.4) {
			for n := r.Range(1, 8); n > 0; n-- {
				m := r.Intn(nm)
				pt := int32(r.Intn(int(p.K("n" + strconv.Itoa(m)))))
				switch r.Intn(4) {
				case 0:
					p.Add(&core.Op{At: at(), Kind: "pauseall", M: m})
				case 1:
					p.Add(&core.Op{At: at(), Kind: "pause", M: m, Part: pt})
				case 2:
					a := at()
					p.Add(&core.Op{At: a, Kind: "pause", M: m, Part: pt})
					p.Add(&core.Op{At: a + int64(r.Pick(0, 10, 1000, 100000, 5000000)), Kind: "resume", M: m, Part: pt, Arg: int64(r.Intn(1000))})
				default:
					p.Add(&core.Op{At: at(), Kind: "resume", M: m, Part: pt, Arg: int64(r.Intn(1000))})
				}
			}
		}
		if r.P(0.3) {
			p.Add(&core.Op{At: at(), Kind: "stop", M: r.Intn(nm), N: r.Intn(2)})
		}
		if r.P(0.2) {
			for n := r.Range(1, 3); n > 0; n-- {
				p.Add(&core.Op{At: at(), Kind: "compact", N: r.Pick(0, 0, 3), Arg: int64(r.Intn(2))})
			}
		}
		g := &flt.Gen{R: r, P: p, End: int64(end), Nodes: nm, Brokers: nb, Topics: []string{topic}, Parts: np}
		keys := []int{1, 1, 1, 1, 2, 3, 23}
		if r.P(0.7) {
			g.Net(r.Range(1, 6), keys)
		}
		if r.P(0.5) {
			g.Errs(r.Range(1, 5), []int{1, 1, 2, 3})
		}
		if r.P(0.5) {
			g.BrokerFaults(r.Range(1, 4))
		}
	}
	p.Sort()
	return p
}

// seg is one position a partition was told to continue from.
type seg struct {
	off   int64
	ret   int64 // when the call returned; 0: not yet
	busy  int64
	early bool // the client did not consume the partition yet
}

type pos struct {
	seg  int
	next int64
}

type part struct {
	segs   []*seg
	states []pos
	asked  bool  // the client has sent a fetch for it
	pause  int64 // when the last call that paused it returned; 0: not paused
	pbusy  int64
	n      int
}

type member struct {
	h       *H
	i       int
	node    int32
	n       int
	cl      streams.GlobalChangeLog[*member]
	rs      sak.RunStatus
	made    bool
	ready   chan struct{}
	parts   []*part
	busy    int64 // time spent in the receiver
	in      bool
	stop    int64
	fetched int64 // when a broker last received a fetch
	sbusy   int64
	rng     *simk.Rng
	calls   chan func()
	called  int
}

type H struct {
	r  *core.Run
	p  *core.Plan
	c  *simk.Cluster
	ms []*member
	id int
}

func (h *H) v(sig, f string, a ...any) { h.r.V("C18", sig, f, a...) }

var errReceiver = errors.New("receiver failed")

// ReceiveChange implements streams.ChangeLogReceiver.
func (m *member) ReceiveChange(ir streams.IncomingRecord) (err error) {
	var slow time.Duration
	simk.Atomic(func() {
		m.check(ir)
		if m.rng.P(float64(m.h.p.K("fail_pct")) / 100) {
			err = errReceiver
			m.h.r.Fault("receiver-error")
		}
		if m.rng.P(0.2) {
			slow = m.h.p.D("slow")
		}
		m.in = true
	})
	if slow > 0 {
		time.Sleep(slow)
	}
	simk.Atomic(func() {
		m.busy += int64(slow)
		m.in = false
	})
	return err
}

func (m *member) check(ir streams.IncomingRecord) {
	h, now := m.h, m.h.r.W.Now()
	tp := ir.TopicPartition()
	h.r.OK("C18")
	if m.in {
		h.v("concurrent", "member %d: a record is handed over while the receiver handles another", m.i)
	}
	if tp.Topic != topic || tp.Partition < 0 || int(tp.Partition) >= m.n {
		h.v("stray", "member %d received a record of %s/%d", m.i, tp.Topic, tp.Partition)
		return
	}
	pt, o := m.parts[tp.Partition], ir.Offset()
	log := h.c.Topic(topic).Parts[tp.Partition]
	pt.n++
	h.r.W.Trace("member %d receives %d/%d", m.i, tp.Partition, o)
	if o < 0 || o >= int64(len(log.All)) {
		h.v("stray", "member %d received offset %d of partition %d, which ends at %d", m.i, o, tp.Partition, len(log.All))
		return
	}
	rec := log.All[o]
	if !rec.Committed() || o >= log.LSO() {
		h.v("uncommitted", "member %d received %d/%d, which is not committed (control %d)", m.i, tp.Partition, o, rec.Ctrl)
		return
	}
	rt, _ := rec.Header(streams.RecordTypeHeaderKey)
	if !bytes.Equal(ir.Key(), rec.Key) || !bytes.Equal(ir.Value(), rec.Val) || ir.RecordType() != string(rt) || string(ir.HeaderValue("x")) != string(first(rec.Header("x"))) || ir.Timestamp().UnixMilli() != rec.Ts {
		h.v("changed", "member %d received %d/%d with other content than was written", m.i, tp.Partition, o)
	}
	var next []pos
	add := func(p pos) {
		for _, q := range next {
			if p == q {
				return
			}
		}
		next = append(next, p)
	}
	for _, s := range pt.states {
		if skip(log, s.next, o) {
			add(pos{s.seg, o + 1})
		}
		for k := s.seg + 1; k < len(pt.segs); k++ {
			if skip(log, pt.segs[k].off, o) {
				add(pos{k, o + 1})
			}
		}
	}
	if len(next) == 0 {
		h.v("order", "member %d received %d/%d, expected %s", m.i, tp.Partition, o, pt.expected(log))
		next = []pos{{len(pt.segs) - 1, o + 1}}
	}
	pt.states = next
	// a new position takes effect at the latest after the records that were already polled
	min := next[0].seg
	for _, s := range next {
		if s.seg > min {
			min = s.seg
		}
	}
	for k := min + 1; k < len(pt.segs); k++ {
		if sg := pt.segs[k]; sg.ret > 0 && !sg.early && now-sg.ret > 5e9+m.busy-sg.busy {
			h.v("old-position", "member %d still received %d/%d %.1f s after it was told to continue at %d", m.i, tp.Partition, o, float64(now-sg.ret)/1e9, sg.off)
		}
	}
	if pt.pause > 0 && now-pt.pause > 40e9+m.busy-pt.pbusy {
		h.v("paused", "member %d received %d/%d %.1f s after the partition was paused", m.i, tp.Partition, o, float64(now-pt.pause)/1e9)
	}
	if m.stop > 0 && now-m.stop > 10e9+m.busy-m.sbusy {
		h.v("stopped", "member %d received %d/%d %.1f s after it was stopped", m.i, tp.Partition, o, float64(now-m.stop)/1e9)
	}
}

func first(b []byte, _ bool) []byte { return b }

// skip tells whether o is a record that may follow position from.
func skip(log *simk.Partition, from, o int64) bool {
	if o < from {
		return false
	}
	for i := from; i < o; i++ {
		if r := log.All[i]; r.Committed() && !r.Gone {
			return false
		}
	}
	return true
}

func (pt *part) expected(log *simk.Partition) string {
	s := ""
	f := func(from int64) {
		for i := from; i < int64(len(log.All)); i++ {
			if r := log.All[i]; r.Committed() && !r.Gone {
				s += fmt.Sprintf(" %d", i)
				return
			}
		}
		s += " nothing"
	}
	for _, p := range pt.states {
		f(p.next)
	}
	for k := pt.states[0].seg + 1; k < len(pt.segs); k++ {
		s += " or"
		f(pt.segs[k].off)
	}
	return s
}

// behind returns the first record that is missing, or -1; early tells that only a position given before
// the client consumed the partition was ignored.
func (pt *part) behind(log *simk.Partition) (missing int64, early bool) {
	end := log.LSO()
	best, missing := false, int64(-1)
	for _, s := range pt.states {
		last := s.seg == len(pt.segs)-1
		if done := skip(log, s.next, end); done && last {
			return -1, false
		} else if done {
			ok := true
			for _, sg := range pt.segs[s.seg+1:] {
				ok = ok && sg.early
			}
			best = best || ok
		}
	}
	if sg := pt.segs[len(pt.segs)-1]; skip(log, sg.off, end) {
		return -1, false // nothing to deliver there
	}
	if best {
		return -1, true
	}
	for i := pt.states[0].next; i < end; i++ {
		if r := log.All[i]; r.Committed() && !r.Gone {
			missing = i
			break
		}
	}
	if missing < 0 {
		missing = pt.segs[len(pt.segs)-1].off
	}
	return missing, false
}

func (h *H) write(op *core.Op) {
	if h.c.Topic(topic) == nil {
		return
	}
	var recs []*simk.Rec
	for i := 0; i < op.N; i++ {
		h.id++
		rec := &simk.Rec{Val: []byte(fmt.Sprintf("v%d", h.id))}
		if k := (h.id * 7919) % 11; k > 0 {
			rec.Key = []byte("k" + strconv.Itoa(k))
		}
		if op.Arg > 0 {
			rec.Val = append(rec.Val, bytes.Repeat([]byte{'x'}, int(op.Arg))...)
		}
		if h.id%13 == 0 {
			rec.Val = nil
		}
		if h.id%3 > 0 {
			rec.Hdrs = append(rec.Hdrs, simk.Header{Key: streams.RecordTypeHeaderKey, Val: []byte("T" + strconv.Itoa(h.id%3))})
		}
		if h.id%5 == 0 {
			rec.Hdrs = append(rec.Hdrs, simk.Header{Key: "x", Val: []byte(strconv.Itoa(h.id))})
		}
		recs = append(recs, rec)
	}
	if op.Str == "plain" {
		h.c.AppendDirect(topic, op.Part, recs...)
		return
	}
	f := h.c.DirectTxn(topic, op.Part, recs...)
	h.r.W.After(op.Dur*1000, func() { f(op.Str == "commit") })
}

// do runs a call on a member's own goroutine, so that calls on different members overlap.
func (m *member) do(f func()) {
	m.called++
	m.calls <- f
}

func (m *member) start() {
	h := m.h
	m.made = true
	go func() {
		runtime.SimSetNode(m.node)
		if h.p.K("ext"+strconv.Itoa(m.i)) == 1 {
			m.rs = sak.NewRunStatus(context.Background())
			m.cl = streams.NewGlobalChangeLogWithRunStatus(m.rs, h.c, m, m.n, topic, streams.CompactCleanupPolicy)
		} else {
			m.cl = streams.NewGlobalChangeLog(h.c, m, m.n, topic, streams.CompactCleanupPolicy)
		}
		close(m.ready)
		for f := range m.calls {
			f()
			simk.Atomic(func() { m.called-- })
		}
	}()
	m.do(func() { m.cl.Start() })
}

func (m *member) pause(part int32, all bool) {
	m.do(func() {
		if all {
			m.cl.PauseAllPartitions()
		} else {
			m.cl.Pause(part)
		}
		simk.Atomic(func() {
			m.h.r.W.Trace("member %d paused %d %v", m.i, part, all)
			for i, pt := range m.parts {
				if (all || i == int(part)) && pt.pause == 0 {
					pt.pause, pt.pbusy = m.h.r.W.Now(), m.busy
				}
			}
		})
	})
}

func (m *member) resume(part int32, arg int64) {
	m.do(func() {
		var sg *seg
		pt := m.parts[part]
		simk.Atomic(func() {
			hw := int64(0)
			if t := m.h.c.Topic(topic); t != nil && int(part) < len(t.Parts) {
				hw = t.Parts[part].HW()
			}
			sg = &seg{off: hw * arg / 1000, early: !pt.asked}
			pt.segs = append(pt.segs, sg)
			pt.pause = 0
			m.h.r.W.Trace("member %d resumes %d at %d (early %v)", m.i, part, sg.off, sg.early)
		})
		m.cl.ResumePartitionAt(part, sg.off)
		simk.Atomic(func() { sg.ret, sg.busy = m.h.r.W.Now(), m.busy })
	})
}

func run(r *core.Run) {
	p := r.Plan
	h := &H{r: r, p: p}
	c := simk.NewCluster(r.W, "c", r.Rng, int(p.K("brokers")))
	h.c = c
	c.LatMin, c.LatMax, c.MetaLag = p.K("lat_min")*1000, p.K("lat_max")*1000, p.K("meta_lag")*1000
	c.FetchBatches = int(p.K("fetch_batches"))
	mk := func() { c.CreateTopic(topic, int(p.K("parts")), nil, p.K("late") > 0, 0) }
	if l := p.K("late"); l > 0 {
		r.W.At(l*1000, mk)
	} else {
		mk()
	}
	for i := 0; i < int(p.K("members")); i++ {
		m := &member{h: h, i: i, node: int32(i + 1), n: int(p.K("n" + strconv.Itoa(i))), ready: make(chan struct{}), calls: make(chan func(), 1000), rng: simk.NewRng(p.Seed + uint64(i)*77)}
		for k := 0; k < m.n; k++ {
			m.parts = append(m.parts, &part{segs: []*seg{{}}, states: []pos{{}}})
		}
		h.ms = append(h.ms, m)
	}
	c.OnRequest = func(node int32, req kmsg.Request) {
		q, ok := req.(*kmsg.FetchRequest)
		if !ok || node < 1 || int(node) > len(h.ms) {
			return
		}
		m := h.ms[node-1]
		m.fetched = r.W.Now()
		for _, t := range q.Topics {
			for _, fp := range t.Partitions {
				if t.Topic == topic && int(fp.Partition) < m.n {
					m.parts[fp.Partition].asked = true
				}
			}
		}
	}
	env := &flt.Env{R: r, C: c, Node: func(i int) int32 { return int32(i + 1) }, Topics: []string{topic}}
	for _, op := range p.Ops {
		if d := op.At*1000 - r.W.Now(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		if env.Do(op) {
			continue
		}
		if op.Kind == "w" {
			h.write(op)
			continue
		}
		if op.Kind == "compact" {
			r.Fault("compaction")
			c.Compact(topic, op.Arg == 1, int64(op.N))
			continue
		}
		m := h.ms[op.M%len(h.ms)]
		if op.Kind == "start" {
			m.start()
			continue
		}
		if !m.made || m.stop > 0 {
			continue
		}
		switch op.Kind {
		case "pause":
			m.pause(op.Part, false)
		case "pauseall":
			m.pause(0, true)
		case "resume":
			m.resume(op.Part, op.Arg)
		case "stop":
			m.stopNow(op.N == 1)
		}
	}
	env.End()
	time.Sleep(4 * time.Second) // open transactions end
	h.settle("after faults stopped")
	// paused partitions stay quiet, the others go on
	for pass := 0; pass < 2 && !runtime.SimGetStats().Overrun; pass++ {
		for i := range c.Topic(topic).Parts {
			h.write(&core.Op{Part: int32(i), N: 2, Str: []string{"plain", "commit", "abort"}[(int(p.Seed)+i)%3]})
			h.write(&core.Op{Part: int32(i), N: 1, Str: "plain"})
		}
		h.settle("in quiet times")
		if pass == 0 {
			for _, m := range h.ms {
				if m.stop == 0 {
					time.Sleep(45 * time.Second)
					break
				}
			}
			for i := range c.Topic(topic).Parts {
				h.write(&core.Op{Part: int32(i), N: 1, Str: "plain"})
			}
			time.Sleep(10 * time.Second)
			for _, m := range h.ms {
				for i, pt := range m.parts {
					if pt.pause > 0 && m.stop == 0 && i < len(c.Topic(topic).Parts) {
						m.resume(int32(i), int64(r.Rng.Intn(1000)))
					}
				}
			}
		}
	}
	for _, m := range h.ms {
		if m.stop == 0 {
			m.stopNow(r.Rng.P(0.5))
		}
	}
	time.Sleep(60 * time.Second)
	for i := range c.Topic(topic).Parts {
		h.write(&core.Op{Part: int32(i), N: 1, Str: "plain"})
	}
	time.Sleep(5 * time.Second)
	if runtime.SimGetStats().Overrun {
		r.Res.Inconcl = "step budget"
		return
	}
	for _, m := range h.ms {
		r.OK("C18")
		if m.made && m.fetched-m.stop > 30e9+m.busy-m.sbusy {
			h.v("not-stopped", "member %d still fetches %.0f s after it was stopped", m.i, float64(m.fetched-m.stop)/1e9)
		}
		for _, pt := range m.parts {
			r.Count("received", int64(pt.n))
		}
	}
	for _, pn := range runtime.SimPanics() {
		h.v("panic", "%s", core.PanicText(pn))
	}
}

func (m *member) stopNow(halt bool) {
	m.do(func() {
		if halt && m.h.p.K("ext"+strconv.Itoa(m.i)) == 1 {
			m.rs.Halt()
		} else {
			m.cl.Stop()
		}
		simk.Atomic(func() { m.h.r.W.Trace("member %d stopped", m.i) })
	})
	m.stop, m.sbusy = m.h.r.W.Now(), m.busy
}

// settle waits until every running member has received what it should have.
func (h *H) settle(when string) {
	r := h.r
	until := r.W.Now() + 120e9
	var open []string
	early := map[string]bool{}
	for r.W.Now() < until && !runtime.SimGetStats().Overrun {
		time.Sleep(200 * time.Millisecond)
		open = open[:0]
		busy := int64(0)
		for _, m := range h.ms {
			busy += m.busy
			if m.called > 0 {
				open = append(open, fmt.Sprintf("a call on member %d has not returned", m.i))
			}
			if m.stop > 0 || !m.made {
				continue
			}
			for i, pt := range m.parts {
				if pt.pause > 0 || i >= len(h.c.Topic(topic).Parts) {
					continue
				}
				if miss, e := pt.behind(h.c.Topic(topic).Parts[i]); miss >= 0 {
					open = append(open, fmt.Sprintf("member %d has not received %d/%d", m.i, i, miss))
				} else if e {
					early[fmt.Sprintf("member %d was told to continue partition %d at %d before it had consumed it, which had no effect", m.i, i, pt.segs[len(pt.segs)-1].off)] = true
				}
			}
		}
		if len(open) == 0 {
			break
		}
	}
	if runtime.SimGetStats().Overrun {
		return
	}
	sort.Strings(open)
	for _, o := range open {
		h.v("missing", "%s 120 s %s", o, when)
	}
	if len(open) == 0 {
		var es []string
		for e := range early {
			es = append(es, e)
		}
		sort.Strings(es)
		for _, e := range es {
			h.v("early-resume", "%s", e)
		}
	}
}
