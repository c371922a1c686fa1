package es

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"
	"verifsim/core"
	"verifsim/simk"
)

// unwell tells whether a transaction of the member failed.
func (in *inst) unwell() bool {
	return in.failAt > 0 || in.es != nil && in.es.State() == streams.Unhealthy
}

// ---- metrics

const appOperation = "app" // metrics which the application emits itself

// recBytes is what a metric counts for a record.
func recBytes(r *simk.Rec) int {
	n := len(r.Key) + len(r.Val)
	for _, x := range r.Hdrs {
		n += len(x.Key) + len(x.Val)
	}
	return n
}

func (h *H) skewed() bool {
	for _, op := range h.p.Ops {
		if op.Kind == "skew" {
			return true
		}
	}
	return false
}

// finalMetrics compares the metrics of a handler that keeps up with what happened.
func (h *H) finalMetrics() {
	if h.p.K("metrics") != 1 || h.overrun() {
		return
	}
	skew := h.skewed()
	for _, in := range h.insts {
		if in.unwell() {
			continue
		}
		var cs []*simk.Txn
		for _, x := range in.commits {
			if len(x.Recs) > 0 {
				cs = append(cs, x)
			}
		}
		k := 0
		end := h.w.Now()
		for _, t := range []int64{in.stopAt, in.doneAt, in.goneAt} {
			if t > 0 && t < end {
				end = t
			}
		}
		seen := map[int]int{}
		for _, m := range in.metrics {
			switch m.Operation {
			case streams.TxnCommitOperation:
				h.r.OK("C12")
				if k >= len(cs) {
					h.r.V("C12", "extra-metric", "member %d reported %d committed transactions or more but committed %d", in.node, k+1, len(cs))
					break
				}
				x := cs[k]
				k++
				n, by := 0, 0
				parts := map[int32]bool{}
				for _, r := range x.Recs {
					n++
					by += recBytes(r)
					if r.Topic == commitLog {
						parts[r.Part] = true
					}
				}
				if m.Count != n || m.Bytes != by {
					h.r.V("C12", "txn-count", "the %d. transaction of member %d (%d) has %d records of %d bytes; its metric says %d of %d bytes", k, in.node, x.ID, n, by, m.Count, m.Bytes)
				}
				if m.PartitionCount < len(parts) || m.PartitionCount > h.parts {
					h.r.V("C12", "txn-partitions", "transaction %d of member %d is about %d partitions; its metric says %d", x.ID, in.node, len(parts), m.PartitionCount)
				}
				if m.Topic != srcTopic || m.GroupId != groupID {
					h.r.V("C12", "txn-labels", "metric of transaction %d of member %d is labelled %q %q", x.ID, in.node, m.Topic, m.GroupId)
				}
				if !skew {
					if m.StartTime.After(m.ExecuteTime) || m.ExecuteTime.After(m.EndTime) {
						h.r.V("C12", "txn-times", "metric of transaction %d of member %d: start %v, execution %v, end %v", x.ID, in.node, m.StartTime, m.ExecuteTime, m.EndTime)
					}
					if e := m.EndTime.UnixNano() - h.base; e < x.Decided {
						h.r.V("C12", "txn-early", "metric of transaction %d of member %d ends %.3f s before it was decided", x.ID, in.node, float64(x.Decided-e)/1e9)
					}
				}
			case streams.PartitionPreppedOperation:
				h.preppedMetric(in, m, skew)
			case appOperation:
				h.r.OK("C12")
				seen[m.Count]++
				if n := m.Count; n < 1 || n > len(in.emitted) || seen[n] > 1 || m.StartTime.Unix() != int64(n) || !m.ExecuteTime.Equal(m.StartTime) || m.Duration() != 3*time.Second {
					h.r.V("C12", "app-metric", "member %d: the application's metric %d arrived %d times, as %+v", in.node, n, seen[n], m)
				}
			}
		}
		if in.crashed {
			end -= 1e9
		}
		h.missingPrepped(in, end)
		for i, at := range in.emitted {
			if seen[i+1] == 0 && len(in.metrics) < 2000 && (at < end-45e9 || at > h.faultEnd+10e9 && at < end-3e9) {
				h.r.V("C12", "missing-app-metric", "member %d: the application's metric %d never reached the handler", in.node, i+1)
				break
			}
		}
		want := 0
		for i, x := range cs {
			if x.Decided < end-45e9 || (x.Decided > h.faultEnd+10e9 && x.Decided < end-3e9) {
				want = i + 1
			}
		}
		if k < want && len(in.metrics) < 2000 {
			h.r.V("C12", "missing-metric", "member %d committed %d transactions long before it went, but its metrics handler was told of %d", in.node, want, k)
		}
	}
}

// blocked reports stalls of runs whose metrics handler is slow or never returns. (The driver runs the plan again with
// a fast handler: only if that one does not stall are metrics to blame.)
func (h *H) blocked() {
	if h.p.K("metrics") < 2 {
		return
	}
	h.r.OK("C12")
	for _, v := range h.r.Res.Violations {
		if v.Prop == "C06" || v.Prop == "C07" || v.Prop == "C09" && v.Sig == "slow-commit" {
			h.r.V("C12", "blocked:"+v.Sig, "with a metrics handler that does not keep up: %s", v.Detail)
			return
		}
	}
}

// missingPrepped: a partition that the member told the group it had prepared has been reported as such.
func (h *H) missingPrepped(in *inst, end int64) {
	if len(in.metrics) >= 2000 {
		return
	}
	told := map[int32]int{}
	for _, m := range in.metrics {
		if m.Operation == streams.PartitionPreppedOperation {
			told[m.Partition]++
		}
	}
	for _, x := range h.c.Group(groupID).Gens {
		if x.Protocol != streams.IncrementalCoopProtocol || x.SyncAt == 0 || x.SyncAt > end-5e9 {
			continue
		}
		for _, gm := range x.Members {
			if gm.Node != in.node {
				continue
			}
			if m, err := parseMember(gm); err == nil {
				for _, p := range sortedInts(m.ready) {
					h.r.OK("C12")
					if told[p] == 0 {
						told[p] = 1
						h.r.V("C12", "missing-prepped", "member %d prepared partition %d by generation %d, but its metrics handler was never told", in.node, p, x.Gen)
					}
				}
			}
		}
	}
}

func (h *H) preppedMetric(in *inst, m streams.Metric, skew bool) {
	h.r.OK("C12")
	h.r.Count("prepped-metrics", 1)
	if m.Count < 0 || m.Bytes < 0 || m.PartitionCount != 1 || m.Partition < 0 || int(m.Partition) >= h.parts || m.GroupId != groupID {
		h.r.V("C12", "prepped", "odd preparation metric of member %d: %+v", in.node, m)
		return
	}
	if skew {
		return
	}
	t0, t1 := m.StartTime.UnixNano()-h.base, m.EndTime.UnixNano()-h.base
	var st *Store
	for _, s := range in.allStores {
		if s.part == m.Partition && s.at <= t0 {
			st = s
		}
	}
	if st == nil || t1 < t0 {
		h.r.V("C12", "prepped", "member %d reports partition %d as prepared, without a store for it: %+v", in.node, m.Partition, m)
		return
	}
	n, by := 0, 0
	for i, t := range st.times {
		if t <= t1 {
			n++
		}
		if i < m.Count {
			by += st.sizes[i]
		}
	}
	if m.Count > n {
		h.r.V("C12", "prepped-count", "member %d prepared partition %d with %d changes, its metric says %d", in.node, m.Partition, n, m.Count)
		return
	}
	if m.Bytes < by {
		h.r.V("C12", "prepped-bytes", "member %d prepared partition %d with %d changes of %d bytes, its metric says %d bytes", in.node, m.Partition, m.Count, by, m.Bytes)
	}
	if !h.compacted {
		lo := 0
		if t := h.sc.Topic(changeLog); t != nil {
			for _, r := range t.Parts[m.Partition].All {
				if _, mark := r.Header("gkes__mark"); r.Ctrl == 0 && !mark && r.Committed() && r.Txn != nil && r.Txn.Ended < t0 {
					lo++
				}
			}
		}
		if m.Count < lo {
			h.r.V("C12", "prepped-count", "%d changes of partition %d were committed before member %d prepared it, its metric says %d", lo, m.Partition, in.node, m.Count)
		}
	}
}

// ---- incremental balancing

// gmember is what one member told the group, and what it was told.
type gmember struct {
	id               string
	node             int32
	owned            map[int32]bool
	assigned         map[int32]bool
	preparing, ready map[int32]bool
	prepare, forget  map[int32]bool
	status           streams.MemberStatus
}

// tellKey identifies an instruction to prepare a partition.
type tellKey struct {
	id string
	p  int32
}

func (m *gmember) active() bool { return m.status == streams.ActiveMember }

func tpSet(tps []streams.TopicPartition) map[int32]bool {
	out := map[int32]bool{}
	for _, tp := range tps {
		if tp.Topic == srcTopic {
			out[tp.Partition] = true
		}
	}
	return out
}

func parseMember(m *simk.GenMember) (*gmember, error) {
	g := &gmember{id: m.ID, node: m.Node, owned: map[int32]bool{}, assigned: map[int32]bool{}}
	var meta kmsg.ConsumerMemberMetadata
	if err := meta.ReadFrom(m.Meta); err != nil {
		return nil, err
	}
	for _, o := range meta.OwnedPartitions {
		for _, p := range o.Partitions {
			if o.Topic == srcTopic {
				g.owned[p] = true
			}
		}
	}
	var um streams.IncrGroupMemberMeta
	if err := json.Unmarshal(meta.UserData, &um); err != nil {
		return nil, err
	}
	g.status, g.preparing, g.ready = um.Status, tpSet(um.Preparing), tpSet(um.Ready)
	for _, p := range m.Assigned[srcTopic] {
		g.assigned[p] = true
	}
	var im streams.IncrGroupMemberInstructions
	if len(m.Raw) > 0 {
		var a kmsg.ConsumerMemberAssignment
		if err := a.ReadFrom(m.Raw); err != nil {
			return nil, err
		}
		if err := json.Unmarshal(a.UserData, &im); err != nil {
			return nil, err
		}
	}
	g.prepare, g.forget = tpSet(im.Prepare), tpSet(im.Forget)
	return g, nil
}

// onSync checks the decisions of one rebalance against what its members said.
func (h *H) onSync(x *simk.Gen) {
	if x.Protocol != streams.IncrementalCoopProtocol {
		return
	}
	var ms []*gmember
	actives := 0
	for _, m := range x.Members {
		g, err := parseMember(m)
		if err != nil {
			h.r.V("C13", "unreadable", "generation %d: what member %s said or was told can not be read: %v", x.Gen, m.ID, err)
			return
		}
		ms = append(ms, g)
		if g.active() {
			actives++
		}
	}
	h.r.OK("C13")
	defer func() {
		for _, m := range ms {
			for p := range m.prepare {
				h.told[tellKey{m.id, p}] = true
			}
		}
	}()
	owner, got := map[int32]*gmember{}, map[int32]*gmember{}
	clash := false
	for _, m := range ms {
		for _, p := range sortedInts(m.owned) {
			if owner[p] != nil {
				clash = true
				h.r.Count("ownership-clash", 1)
			}
			owner[p] = m
		}
		for _, p := range sortedInts(m.assigned) {
			if got[p] != nil {
				h.r.V("C13", "two-owners", "generation %d gives partition %d to members on node %d and node %d", x.Gen, p, got[p].node, m.node)
			}
			got[p] = m
		}
	}
	if clash {
		return // a member which lost its place still claims partitions
	}
	moving := map[int32]bool{}
	for p := int32(0); p < int32(h.parts); p++ {
		o, n := owner[p], got[p]
		readier := func(ready, preparing bool) *gmember {
			for _, m := range ms {
				if m != o && m.active() && (ready && m.ready[p] || preparing && m.preparing[p]) {
					return m
				}
			}
			return nil
		}
		switch {
		case o == nil && actives > 0:
			if n == nil {
				h.r.V("C13", "left-unowned", "generation %d: nobody owns partition %d and it is given to nobody, though %d members are active", x.Gen, p, actives)
			} else if !n.active() {
				h.r.V("C13", "given-to-leaver", "generation %d gives the unowned partition %d to node %d, which is leaving", x.Gen, p, n.node)
			} else if r := readier(true, true); r != nil && !n.ready[p] && !n.preparing[p] {
				h.r.V("C13", "given-to-unprepared", "generation %d gives the unowned partition %d to node %d although node %d is preparing it", x.Gen, p, n.node, r.node)
			}
		case o != nil && n != nil && n != o:
			h.r.V("C13", "taken-and-given", "generation %d gives partition %d to node %d while node %d still owns it", x.Gen, p, n.node, o.node)
		case o != nil && n == nil && actives > 0:
			h.r.Count("moves", 1)
			moving[p] = true
			if readier(true, false) == nil {
				h.r.V("C13", "taken-unprepared", "generation %d takes partition %d from node %d although no member reported it prepared", x.Gen, p, o.node)
			}
		}
		if o != nil && readier(true, true) != nil {
			moving[p] = true
		}
		for _, m := range ms {
			if m.prepare[p] {
				moving[p] = true
				h.r.Count("prepare-instructions", 1)
				if m == o {
					h.r.V("C13", "prepare-own", "generation %d tells node %d to prepare partition %d, which it owns", x.Gen, m.node, p)
				}
				if !m.active() {
					h.r.V("C13", "prepare-leaver", "generation %d tells node %d, which is leaving, to prepare partition %d", x.Gen, m.node, p)
				}
			}
		}
	}
	if len(moving) > 1 {
		// a claim that dates from before the member rejoined the group is not known to the members which balance the group
		stale, sig := map[int32]bool{}, "many-moves"
		for p := range moving {
			for _, m := range ms {
				if (m.ready[p] || m.preparing[p]) && !h.told[tellKey{m.id, p}] {
					stale[p] = true
				}
			}
		}
		if len(moving)-len(stale) <= 1 {
			sig = "many-moves:rejoined"
		}
		h.r.V("C13", sig, "generation %d has %d moves under way at a time: partitions %v (%s)", x.Gen, len(moving), sortedInts(moving), describe(ms))
	}
}

func describe(ms []*gmember) string {
	s := ""
	for _, m := range ms {
		s += fmt.Sprintf("[n%d status %d owned %v assigned %v preparing %v ready %v prepare %v]", m.node, m.status, sortedInts(m.owned), sortedInts(m.assigned), sortedInts(m.preparing), sortedInts(m.ready), sortedInts(m.prepare))
	}
	return s
}

// calm: nothing happens to the group but members coming and going.
func (h *H) calm() bool {
	for _, op := range h.p.Ops {
		switch op.Kind {
		case "start", "stop", "stopnow", "usr1", "ev", "interject", "interjectall", "crash":
		default:
			return false
		}
	}
	return true
}

// needless: partitions which do not move stay with their owner, who need not interrupt them.
func (h *H) needless(in *inst, q int32) {
	if in.stopAt > 0 || in.failAt > 0 || in.dead || in.wasEvicted || in.unwell() || !h.calm() {
		return
	}
	gens := h.c.Group(groupID).Gens
	for i := len(gens) - 1; i >= 0; i-- {
		x := gens[i]
		if x.SyncAt == 0 {
			continue
		}
		if x.Protocol != streams.IncrementalCoopProtocol {
			return
		}
		for _, m := range x.Members {
			if m.Node != in.node {
				continue
			}
			h.r.OK("C13")
			for _, p := range m.Assigned[srcTopic] {
				if p == q {
					h.r.V("C13", "needless-revoke", "member %d lost partition %d although generation %d, the last one, left it with it", in.node, q, x.Gen)
				}
			}
			return
		}
	}
}

// knewIncremental: with several strategies to choose from, a member asks which one is used when it is told to stop.
// There is no answer to that while the group rebalances.
func (h *H) knewIncremental(in *inst) bool {
	if !h.calm() {
		return false
	}
	d := h.c.Described[in.node]
	return d != nil && d.At >= in.stopAt && d.Protocol == streams.IncrementalCoopProtocol
}

// onLeave: a member that leaves gracefully has nothing left to lose.
func (h *H) onLeave(e simk.GroupEvent) {
	in := h.byNode[e.Node]
	if in == nil || in.stopKind != "stop" || in.unwell() || in.crashed || in.wasEvicted || h.p.K("balance") > 0 && !h.knewIncremental(in) {
		return
	}
	gens := h.c.Group(groupID).Gens
	for i := len(gens) - 1; i >= 0; i-- {
		x := gens[i]
		if x.SyncAt == 0 || x.Protocol != streams.IncrementalCoopProtocol {
			continue
		}
		for _, m := range x.Members {
			if m.ID != e.Member {
				continue
			}
			others := false // somebody else to hand over to
			for i := range x.Members {
				if g, err := parseMember(x.Members[i]); err == nil && x.Members[i].ID != e.Member && g.active() {
					others = true
				}
			}
			if !others {
				return
			}
			h.r.OK("C13")
			h.r.Count("graceful-leaves", 1)
			if ps := m.Assigned[srcTopic]; len(ps) > 0 {
				h.r.V("C13", "leaves-undrained", "member %d left gracefully while it owned partitions %v (generation %d)", in.node, ps, x.Gen)
			}
			return
		}
	}
}

// moving: somebody still prepares for a partition.
func (h *H) moving() bool {
	gens := h.c.Group(groupID).Gens
	if len(gens) == 0 || gens[len(gens)-1].Protocol != streams.IncrementalCoopProtocol {
		return false
	}
	for _, m := range gens[len(gens)-1].Members {
		if g, err := parseMember(m); err == nil && len(g.prepare)+len(g.preparing)+len(g.ready) > 0 {
			return true
		}
	}
	return false
}

// balanced waits until the group has come to rest and looks at the result.
func (h *H) balanced() {
	if h.p.K("balance") > 0 || h.overrun() {
		return
	}
	limit := h.w.Now() + int64(h.parts)*15e9 + 150e9
	for h.w.Now()-maxi(h.lastGen, h.faultEnd) < 15e9 || !h.c.Group(groupID).Settled() || h.moving() {
		if h.w.Now() > limit {
			h.r.V("C13", "never-settles", "%.0f s after faults stopped the group of %d members and %d partitions still rebalances", float64(h.w.Now()-h.faultEnd)/1e9, h.liveMembers(), h.parts)
			return
		}
		if h.overrun() {
			return
		}
		time.Sleep(500 * time.Millisecond)
		h.keepAlive()
	}
	gens := h.c.Group(groupID).Gens
	if len(gens) == 0 {
		return
	}
	x := gens[len(gens)-1]
	if x.SyncAt == 0 || x.Protocol != streams.IncrementalCoopProtocol {
		return
	}
	var counts []int
	total := 0
	for _, m := range x.Members {
		g, err := parseMember(m)
		if err != nil {
			return
		}
		total += len(g.assigned)
		if g.active() {
			counts = append(counts, len(g.assigned))
		} else if len(g.assigned) > 0 {
			h.r.V("C13", "leaver-stuck", "the group came to rest although node %d, which is leaving, still owns %d partitions", g.node, len(g.assigned))
		}
	}
	if len(counts) == 0 {
		return
	}
	h.r.OK("C13")
	sort.Ints(counts)
	lo := h.parts / len(counts)
	if total != h.parts {
		h.r.V("C13", "not-all-owned", "the group came to rest with %d of %d partitions owned", total, h.parts)
	} else if counts[0] < lo || counts[len(counts)-1] > lo+1 {
		h.r.V("C13", "unbalanced", "the group came to rest unbalanced: %d partitions, %d active members owning %v", h.parts, len(counts), counts)
	}
	h.r.Count("balanced-groups", 1)
}

func (h *H) liveMembers() int {
	n := 0
	for _, in := range h.insts {
		if in.alive() {
			n++
		}
	}
	return n
}

// ---- InterjectAll

// allFn counts how often each partition ran.
func (h *H) allFn(in *inst, runs map[int32]int) streams.Interjector[*Store] {
	return func(ec *streams.EventContext[*Store], when time.Time) streams.ExecutionState {
		q := ec.TopicPartition().Partition
		simk.Atomic(func() {
			w := h.enter(in, q, " in InterjectAll")
			runs[q]++
			h.leave(w)
		})
		return streams.Complete
	}
}

func (h *H) interjectAll(in *inst, op *core.Op) {
	h.r.Count("interjectall", 1)
	t0 := h.w.Now()
	done := false
	h.w.At(maxi(h.w.Now(), h.faultEnd)+100e9, func() {
		if !done && in.alive() && !h.ended {
			h.v("C10", "all-hangs", -1, "InterjectAll on member %d has not returned %.0f s after it was called", in.node, float64(h.w.Now()-t0)/1e9)
		}
	})
	held := map[int32]*window{}
	runs := map[int32]int{}
	simk.Atomic(func() {
		for q, w := range in.wins {
			if w.willRev == 0 {
				held[q] = w
			}
		}
	})
	fn := h.allFn(in, runs)
	if op.N == 1 {
		in.es.InterjectAllSync(fn)
	} else {
		in.es.InterjectAll(fn)
	}
	simk.Atomic(func() { done = true; h.r.OK("C10") })
	if op.N != 1 {
		time.Sleep(20 * time.Second)
	}
	simk.Atomic(func() {
		if !in.alive() || in.unwell() || in.stopKind == "stopnow" { // it drops what it has not started
			return
		}
		for _, q := range sortedInts(runs) {
			if runs[q] > 1 {
				h.v("C10", "all-twice", q, "one InterjectAll on member %d ran %d times in partition %d", in.node, runs[q], q)
			}
		}
		for _, q := range sortedInts(held) {
			if w := held[q]; in.wins[q] == w && w.willRev == 0 && runs[q] == 0 && (op.N == 1 || h.w.Now() > h.faultEnd+40e9) {
				h.v("C10", "all-missed", q, "InterjectAll on member %d did not run in partition %d, which it held throughout", in.node, q)
			}
		}
	})
}
