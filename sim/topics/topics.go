// Package topics simulates topic bootstrap (C19): application instances that create sources and
// destinations at the same time, on clusters that hold some of the topics already, while brokers and the
// network fail.
package topics

import (
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"time"

	"verifsim/core"
	"verifsim/flt"
	"verifsim/simk"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"
)

func init() { core.Scenarios["topics"] = core.Scenario{Gen: gen, Run: run} }

var names = []string{"orders", "gkes_commit_log_g1", "gkes_change_log_orders_g1", "gkes_commit_log_g2", "gkes_change_log_orders_g2", "store", "out", "out2"}

// What a call asks for.
//
//	Kind src: Key 1 or 2 the group; Ints = partitions, replication, min in sync, commit log partitions, named state store topic, separate state cluster
//	Kind dst: Str the topic; Ints = partitions, replication, min in sync
func gen(profile string, seed uint64) *core.Plan {
	r := simk.NewRng(seed*9001 + simk.Hash64("topics/"+profile))
	p := &core.Plan{Knobs: map[string]int64{}, Sched: core.DefaultSched(r)}
	set := p.Set
	nb := r.Range(1, 4)
	set("brokers", int64(nb))
	set("brokers2", int64(r.Range(1, 3)))
	set("lat_min", int64(r.Pick(20, 100, 500)))
	set("lat_max", int64(r.Pick(600, 2000, 5000, 50000)))
	set("meta_lag", int64(r.Pick(0, 0, 500, 50000, 1000000, 3000000)))
	set("default_parts", int64(r.Pick(1, 1, 6)))
	end := r.Pick(1, 3, 8) * 1e6
	set("end", int64(end))
	nodes := r.Range(1, 4)
	set("nodes", int64(nodes))
	parts := int64(r.Range(1, 6))
	rf := int64(r.Pick(0, 1, 1, 2, 3))
	if m := p.K("brokers"); rf > m && r.P(0.8) {
		rf = m
	}
	minsync := int64(r.Pick(0, 0, 1, 2, 3))
	cl := int64(r.Pick(0, 1, 3, 5))
	named := int64(0)
	if r.P(0.2) {
		named = 1
	}
	split := int64(0)
	if r.P(0.2) {
		split = 1
	}
	// what is there already
	for _, n := range names {
		if !r.P(0.2) {
			continue
		}
		o := &core.Op{Kind: "exists", Str: n, N: int(parts), Arg: int64(r.Range(1, 3))}
		if r.P(0.3) {
			o.N = r.Range(1, 8)
		}
		if r.P(0.3) {
			o.At = int64(r.Intn(end))
		}
		p.Add(o)
	}
	for i := r.Range(1, 6); i > 0; i-- {
		o := &core.Op{M: r.Intn(nodes), Kind: "src", Key: r.Pick(1, 1, 1, 2)}
		switch r.Intn(3) {
		case 0:
			o.At = int64(r.Intn(end))
		case 1:
			o.At = int64(r.Pick(0, 1, 10, 100, 1000, 10000, 300000))
		}
		if r.P(0.3) {
			o.Kind, o.Str = "dst", names[r.Pick(0, 6, 6, 7)]
			o.Ints = []int64{int64(r.Pick(0, 1, 3, 5)), int64(r.Pick(0, 1, 2)), minsync}
		} else {
			o.Ints = []int64{parts, rf, minsync, cl, named, split}
			if r.P(0.15) {
				o.Ints[0] = int64(r.Range(1, 8)) // another version of the application
			}
			if r.P(0.1) {
				o.Ints[1] = int64(r.Intn(5))
			}
			if r.P(0.1) {
				o.Ints[3] = int64(r.Intn(8))
			}
			if r.P(0.03) {
				o.Ints[0] = 0
			}
		}
		p.Add(o)
	}
	g := &flt.Gen{R: r, P: p, End: int64(end), Nodes: nodes, Brokers: nb, Topics: names[:1], Parts: 3}
	keys := []int{3, 3, 19, 19, 19, -1}
	switch profile {
	case "calm":
	case "lossy": // connections break, requests and answers get lost
		g.Net(r.Range(1, 5), keys)
	case "soft": // what a bootstrap has to survive
		for i := r.Range(1, 4); i > 0; i-- {
			switch r.Intn(3) {
			case 0:
				p.Add(&core.Op{At: g0(r, end), Kind: "refuse", M: r.Intn(nodes), N: r.Range(1, 3)})
			case 1:
				p.Add(&core.Op{At: g0(r, end), Kind: "rule", M: r.Intn(nodes), Broker: -1, Key: keys[r.Intn(4)], Str: "delay", N: r.Pick(1, 2), Arg: int64(r.Pick(5, 50, 500, 2000)) * 1e6, Skip: r.Pick(0, 0, 1, 2)})
			case 2:
				p.Add(&core.Op{At: g0(r, end), Kind: "rule", M: r.Intn(nodes), Broker: -1, Key: 19, Str: "err", N: r.Pick(1, 2), Arg: 41, Skip: r.Pick(0, 0, 1, 2)})
			}
		}
	default: // mix
		if r.P(0.7) {
			g.Net(r.Range(1, 6), keys)
		}
		if r.P(0.5) {
			for i := r.Range(1, 4); i > 0; i-- {
				o := &core.Op{At: g0(r, end), Kind: "rule", M: r.Intn(nodes+1) - 1, Broker: -1, Key: r.Pick(3, 19, 19), Str: "err", N: r.Pick(1, 1, 2, 30), Skip: r.Pick(0, 0, 1, 2, 4)}
				o.Arg = int64(r.Pick(7, 41, 29, 44, -1))
				if o.Key == 3 {
					o.Arg = int64(r.Pick(5, 5, 29, -1, 17))
				} else if r.P(0.3) {
					o.Str, o.Arg = "errafter", 7
				}
				p.Add(o)
			}
		}
		if r.P(0.5) {
			g.BrokerFaults(r.Range(1, 4))
		}
		if r.P(0.1) {
			p.Add(&core.Op{At: g0(r, end), Kind: "noconf", N: r.Pick(1, 1, 2)})
		}
	}
	for _, o := range p.Ops {
		if o.Kind == "bcrash" || o.Kind == "stall" || o.Kind == "cut" || o.Kind == "rule" {
			if o.At > 500000 && r.P(0.5) {
				o.At = int64(r.Intn(500000))
			}
		}
	}
	p.Sort()
	return p
}

func g0(r *simk.Rng, end int) int64 {
	if r.P(0.6) {
		return int64(r.Pick(0, 0, 1000, 5000, 20000))
	}
	return int64(r.Intn(end))
}

type call struct {
	id   int
	op   *core.Op
	node int32
	cfg  streams.EventSourceConfig
	dst  streams.Destination
	at   int64
	done int64
	src  *streams.Source
	rdst streams.Destination
	err  error
}

type H struct {
	r     *core.Run
	p     *core.Plan
	c, c2 *simk.Cluster
	calls []*call
	exist map[string]int // created by others
	hurt  int64          // when the first fault was injected; 0: none
	hard  bool
	bad   []string
}

func (h *H) v(sig, f string, a ...any) { h.r.V("C19", sig, f, a...) }

func run(r *core.Run) {
	p := r.Plan
	h := &H{r: r, p: p, exist: map[string]int{}}
	mk := func(name string, n int) *simk.Cluster {
		c := simk.NewCluster(r.W, name, r.Rng, n)
		c.LatMin, c.LatMax, c.MetaLag = p.K("lat_min")*1000, p.K("lat_max")*1000, p.K("meta_lag")*1000
		c.DefaultParts = int(p.K("default_parts"))
		c.OnRequest = func(node int32, req kmsg.Request) {
			switch req.(type) {
			case *kmsg.MetadataRequest, *kmsg.CreateTopicsRequest, *kmsg.ApiVersionsRequest:
			default:
				h.bad = append(h.bad, fmt.Sprintf("%T by node %d", req, node))
			}
		}
		return c
	}
	h.c, h.c2 = mk("c", int(p.K("brokers"))), mk("d", int(p.K("brokers2")))
	c := h.c
	env := &flt.Env{R: r, C: c, Node: func(i int) int32 { return int32(i + 1) }, Topics: names[:1]}
	env2 := &flt.Env{R: r, C: h.c2, Node: func(i int) int32 { return int32(i + 1) }, Topics: names[:1]}
	for _, op := range p.Ops {
		if d := op.At*1000 - r.W.Now(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		e := env
		if op.ID%5 == 0 && op.Broker <= int32(p.K("brokers2")) && op.Kind != "leader" && op.Kind != "bcrash" {
			e = env2
		}
		if e.Do(op) {
			if h.hurt == 0 {
				h.hurt = r.W.Now() + 1
			}
			continue
		}
		switch op.Kind {
		case "noconf":
			r.Fault("no-configuration")
			h.c.ConfigErr = func() error { return errors.New("no configuration") }
			h.hurt = r.W.Now() + 1
			h.hard = true
			r.W.After(int64(op.N)*1e9, func() { h.c.ConfigErr = nil })
		case "exists":
			for _, k := range []*simk.Cluster{h.c, h.c2} {
				if k.Topic(op.Str) == nil {
					t := k.CreateTopic(op.Str, op.N, map[string]string{"other": "1"}, true, 0)
					t.RF = int16(op.Arg)
					if n := int16(len(k.BrokerIDs())); t.RF > n {
						t.RF = n
					}
				}
			}
		case "src", "dst":
			h.call(op)
		}
	}
	env.End()
	env2.End()
	h.c.ConfigErr = nil
	until := r.W.Now() + 600e9
	for r.W.Now() < until && h.open() && !runtime.SimGetStats().Overrun {
		time.Sleep(100 * time.Millisecond)
	}
	if runtime.SimGetStats().Overrun {
		r.Res.Inconcl = "step budget"
		return
	}
	h.final()
	for _, pn := range runtime.SimPanics() {
		h.v("panic", "%s", core.PanicText(pn))
	}
}

func (h *H) open() bool {
	for _, k := range h.calls {
		if k.done == 0 {
			return true
		}
	}
	return false
}

func (h *H) call(op *core.Op) {
	k := &call{id: len(h.calls) + 1, op: op, node: int32(op.M + 1), at: h.r.W.Now()}
	h.calls = append(h.calls, k)
	n := op.Ints
	if op.Kind == "src" {
		k.cfg = streams.EventSourceConfig{GroupId: "g" + strconv.Itoa(op.Key), Topic: "orders", NumPartitions: int(n[0]), ReplicationFactor: int(n[1]), MinInSync: int(n[2]), CommitLogPartitions: int(n[3]), SourceCluster: h.c}
		if n[4] == 1 {
			k.cfg.StateStoreTopic = "store"
		}
		if n[5] == 1 {
			k.cfg.StateCluster = h.c2
		}
	} else {
		k.dst = streams.Destination{DefaultTopic: op.Str, NumPartitions: int(n[0]), ReplicationFactor: int(n[1]), MinInSync: int(n[2]), Cluster: h.c}
	}
	h.r.W.Trace("call %d on node %d: %s %s %v", k.id, k.node, op.Kind, op.Str, n)
	go func() {
		runtime.SimSetNode(k.node)
		if op.Kind == "src" {
			k.src, k.err = streams.CreateSource(k.cfg)
		} else {
			k.rdst, k.err = streams.CreateDestination(k.dst)
		}
		simk.Atomic(func() {
			k.done = h.r.W.Now()
			h.r.W.Trace("call %d returned %v", k.id, k.err)
			h.check(k)
		})
	}()
}

func (k *call) want(src bool, parts int64) int {
	if !src && parts <= 0 {
		return -1
	}
	return int(parts)
}

// brokers tells how many brokers the topic's cluster has.
func (h *H) on(k *call, topic string) *simk.Cluster {
	if topic != "orders" && k.op.Kind == "src" && k.op.Ints[5] == 1 {
		return h.c2
	}
	return h.c
}

func rfOf(n int64) int {
	if n <= 0 {
		return 1
	}
	return int(n)
}

// topicsOf lists the topics a call is about: name, partitions it asks for, compacted.
type want struct {
	name    string
	parts   int
	compact bool
}

func (h *H) topicsOf(k *call) []want {
	n := k.op.Ints
	if k.op.Kind == "dst" {
		p := int(n[0])
		if p <= 0 {
			p = int(h.p.K("default_parts"))
		}
		return []want{{k.op.Str, p, false}}
	}
	g := "g" + strconv.Itoa(k.op.Key)
	st := "gkes_change_log_orders_" + g
	if n[4] == 1 {
		st = "store"
	}
	cl := int(n[3])
	if cl <= 0 {
		cl = 5
	}
	return []want{{"orders", int(n[0]), false}, {"gkes_commit_log_" + g, cl, true}, {st, -1, true}}
}

func minSync(k *call) string {
	n, rf := k.op.Ints[2], k.op.Ints[1]
	if k.op.Kind == "dst" {
		if n < 1 {
			n = 1
		}
		return strconv.Itoa(int(n))
	}
	if rf <= 1 || n <= 0 {
		return "1"
	}
	if n >= rf {
		n = rf - 1
	}
	return strconv.Itoa(int(n))
}

func (h *H) check(k *call) {
	r := h.r
	r.OK("C19")
	if k.err != nil {
		r.Count("refused", 1)
		if k.op.Kind == "src" && k.src != nil && k.src.State() == streams.Unhealthy {
			h.v("bad-result", "call %d failed (%v) and left a source that is not healthy", k.id, k.err)
		}
		return
	}
	r.Count("created", 1)
	size := map[string]int{}
	for _, w := range h.topicsOf(k) {
		t := h.on(k, w.name).Topic(w.name)
		if t == nil {
			h.v("missing", "call %d returned without error but topic %s does not exist", k.id, w.name)
			return
		}
		size[w.name] = len(t.Parts)
	}
	ws := h.topicsOf(k)
	t := h.on(k, ws[0].name).Topic(ws[0].name)
	rf := int(t.RF)
	if k.op.Kind == "dst" {
		if k.rdst.NumPartitions != size[ws[0].name] || k.rdst.ReplicationFactor != rf || k.rdst.DefaultTopic != k.op.Str || k.rdst.Cluster != streams.Cluster(h.c) {
			h.v("mismatch", "call %d describes destination %s as %d partitions, replication %d; it has %d, %d", k.id, k.op.Str, k.rdst.NumPartitions, k.rdst.ReplicationFactor, size[k.op.Str], rf)
		}
		return
	}
	if k.src == nil {
		h.v("mismatch", "call %d returned neither a source nor an error", k.id)
		return
	}
	cfg := k.src.Config()
	if k.src.NumPartitions() != size["orders"] || cfg.ReplicationFactor != rf || cfg.CommitLogPartitions != size[ws[1].name] ||
		k.src.Topic() != "orders" || k.src.GroupId() != k.cfg.GroupId || k.src.StateStoreTopicName() != ws[2].name || k.src.CommitLogTopicNameForGroupId() != ws[1].name {
		h.v("mismatch", "call %d describes the source as %d partitions, replication %d, %d commit log partitions; it has %d, %d, %d", k.id, k.src.NumPartitions(), cfg.ReplicationFactor, cfg.CommitLogPartitions, size["orders"], rf, size[ws[1].name])
	}
	if size[ws[2].name] != size["orders"] {
		h.v("inconsistent", "call %d accepts change log %s of %d partitions for a source of %d", k.id, ws[2].name, size[ws[2].name], size["orders"])
	}
}

func (h *H) final() {
	r := h.r
	if len(h.bad) > 0 {
		h.v("request", "bootstrap sent %v", h.bad)
	}
	wanted := map[string]bool{}
	for _, k := range h.calls {
		for _, w := range h.topicsOf(k) {
			wanted[h.on(k, w.name).Name+"/"+w.name] = true
		}
		if k.done == 0 {
			h.v("hangs", "call %d (%s on node %d) has not returned 600 s after faults stopped", k.id, k.op.Kind, k.node)
		}
	}
	for _, c := range []*simk.Cluster{h.c, h.c2} {
		seen := map[string]bool{}
		for _, n := range c.Creations {
			if seen[n] {
				h.v("recreated", "%s %s was created twice", c.Name, n)
			}
			seen[n] = true
			t := c.Topic(n)
			if t == nil {
				h.v("deleted", "%s", n)
				continue
			}
			if t.CreatedBy == 0 {
				continue
			}
			r.OK("C19")
			if !wanted[c.Name+"/"+n] {
				h.v("stray-topic", "topic %s was created, which nobody asked for", n)
				continue
			}
			// somebody on that node asked for exactly this
			ok := false
			var asked []string
			for _, k := range h.calls {
				if k.node != t.CreatedBy || k.at > t.CreatedAt {
					continue
				}
				for _, w := range h.topicsOf(k) {
					if w.name != n || h.on(k, n) != c {
						continue
					}
					parts := w.parts
					if parts < 0 {
						parts = len(h.c.Topic("orders").Parts)
					}
					rf := rfOf(k.op.Ints[1])
					if k.op.Kind == "src" && n != "orders" && h.c.Topic("orders") != nil {
						// the source's actual replication is used for the other topics
						rf = int(h.c.Topic("orders").RF)
					}
					policy := "compact"
					if !w.compact {
						policy = ""
					}
					sync := map[string]bool{minSync(k): true}
					if k.op.Kind == "src" && n != "orders" {
						kk := *k
						op := *k.op
						op.Ints = append([]int64{}, op.Ints...)
						op.Ints[1] = int64(rf)
						kk.op = &op
						sync = map[string]bool{minSync(&kk): true}
					}
					got := t.Configs["cleanup.policy"]
					if len(t.Parts) == parts && int(t.RF) == rf && (got == policy || policy == "" && got == "delete") && sync[t.Configs["min.insync.replicas"]] {
						ok = true
					}
					asked = append(asked, fmt.Sprintf("%d partitions, replication %d, cleanup %q, min in sync %v", parts, rf, policy, sync))
				}
			}
			if !ok {
				h.v("wrong-topic", "topic %s was created by node %d with %d partitions, replication %d, config %v; wanted: %v", n, t.CreatedBy, len(t.Parts), t.RF, t.Configs, asked)
			}
		}
	}
	// without faults (or with mild ones) a call fails only for a reason
	for _, k := range h.calls {
		if k.done == 0 || k.err == nil {
			continue
		}
		if h.p.Profile == "mix" {
			continue
		}
		r.OK("C19")
		if !h.reason(k) {
			h.v("fails", "call %d (%s) failed although nothing is in its way: %v", k.id, k.op.Kind, k.err)
		}
	}
	if h.p.Profile != "mix" {
		return
	}
	// once faults have stopped, bootstrap works
	var last []*call
	if len(h.calls) > 0 {
		for _, k := range h.calls[:1] {
			op := *k.op
			h.call(&op)
			last = append(last, h.calls[len(h.calls)-1])
		}
	}
	until := r.W.Now() + 120e9
	for r.W.Now() < until && h.open() && !runtime.SimGetStats().Overrun {
		time.Sleep(100 * time.Millisecond)
	}
	for _, k := range last {
		r.OK("C19")
		if k.done == 0 {
			h.v("hangs", "call %d (%s on node %d) has not returned after 120 s in quiet times", k.id, k.op.Kind, k.node)
		} else if k.err != nil && !h.reason(k) {
			h.v("fails", "call %d (%s), made after faults stopped, failed although nothing is in its way: %v", k.id, k.op.Kind, k.err)
		}
	}
}

// reason tells whether a call has to fail: what exists is inconsistent, or what it asks for is impossible.
func (h *H) reason(k *call) bool {
	ws := h.topicsOf(k)
	for _, w := range ws {
		c := h.on(k, w.name)
		t := c.Topic(w.name)
		brokers := len(c.BrokerIDs())
		if t := h.c.Topic("orders"); k.op.Kind == "src" && w.name != "orders" && t != nil && int(t.RF) > brokers {
			return true // the replication of the source is used for the others
		}
		if t != nil && t.CreatedAt < k.at {
			continue
		}
		if w.parts == 0 || rfOf(k.op.Ints[1]) > brokers {
			return true
		}
	}
	if k.op.Kind == "src" {
		a, b := h.c.Topic("orders"), h.on(k, ws[2].name).Topic(ws[2].name)
		if a != nil && b != nil && len(a.Parts) != len(b.Parts) {
			return true
		}
	}
	return false
}
