package es

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"runtime"

	"github.com/twmb/franz-go/pkg/kgo"
	"verifsim/core"
	"verifsim/simk"
)

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedInts[V any](m map[int32]V) []int32 {
	out := make([]int32, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (h *H) onGroup(e simk.GroupEvent) {
	if e.Kind == "expired" || e.Kind == "missed" {
		h.r.Count("evictions", 1)
		if in := h.byNode[e.Node]; in != nil && !in.dead {
			in.wasEvicted = true
			if in.evicted == 0 {
				in.evicted = h.w.Now()
			}
		}
	}
	if e.Kind == "leave" {
		h.onLeave(e)
	}
}

// onGen: a member which is part of the new generation is no longer evicted, though what it held
// when it came back it holds on the word of a generation that had ended.
func (h *H) onGen(x *simk.Gen) {
	h.lastGen = h.w.Now()
	h.onSync(x)
	for _, m := range x.Members {
		if in := h.byNode[m.Node]; in != nil && !in.dead {
			h.event("generation", in, -1)
		}
		if in := h.byNode[m.Node]; in != nil && in.evicted > 0 && in.evicted < h.w.Now() {
			in.evicted = 0
			for q := range in.assigned {
				in.stale[q] = true
			}
		}
	}
}

// onDecide looks at a transaction at its point of no return.
func (h *H) onDecide(x *simk.Txn) {
	in := h.byNode[x.Node]
	if x.Outcome != 1 {
		h.r.Count("txn-aborted", 1)
		if in != nil && len(x.Recs) > 0 {
			in.aborted = append(in.aborted, x)
		}
		return
	}
	h.r.Count("txn-committed", 1)
	if in == nil {
		return
	}
	in.txns++
	h.event("commit", in, -1)
	in.commits = append(in.commits, x)
	type commit struct {
		part int32
		pos  int64
		n    int
	}
	commits := map[int32]*commit{}
	eff := map[int]*effect{}
	ij := map[string][]int{}
	for _, r := range x.Recs {
		switch r.Topic {
		case commitLog:
			if _, mark := r.Header("gkes__mark"); mark {
				h.r.V("C01", "marker-in-txn", "transaction %d holds a marker record", x.ID)
				continue
			}
			if len(r.Key) < 8 || len(r.Val) < 8 || string(r.Key[8:]) != srcTopic {
				h.r.V("C02", "commit-record", "unreadable commit record key %x value %x", r.Key, r.Val)
				continue
			}
			q := int32(binary.LittleEndian.Uint64(r.Key))
			v := int64(binary.LittleEndian.Uint64(r.Val))
			if want := q % int32(h.p.K("clparts")); r.Part != want {
				h.v("C02", "commit-partition", q, "commit record of partition %d is in commit log partition %d, want %d", q, r.Part, want)
			}
			c := commits[q]
			if c == nil {
				c = &commit{part: q, pos: v}
				commits[q] = c
			}
			c.n++
			c.pos = v
		case dstTopic, changeLog:
			v, _ := r.Header("e")
			id, idx, ok := strings.Cut(string(v), ":")
			if !ok {
				h.r.V("C01", "unknown-record", "transaction %d holds a record without origin in %s: %q", x.ID, r.Topic, r.Val)
				continue
			}
			i, _ := strconv.Atoi(idx)
			if n, err := strconv.Atoi(id); err == nil {
				f := eff[n]
				if f == nil {
					f = &effect{recs: map[int]*simk.Rec{}}
					eff[n] = f
				}
				if f.recs[i] != nil {
					f.dup = true
				}
				f.recs[i] = r
			} else {
				ij[id] = append(ij[id], i)
			}
		default:
			h.r.V("C01", "foreign-topic", "transaction %d wrote to %s", x.ID, r.Topic)
		}
	}
	// a member that lost its group membership before the decision: nothing in the protocol fences it
	zombie := false
	for q := range commits {
		if in.zombie(q) {
			h.taint[q], zombie = true, true
		}
	}
	for n := range eff {
		if e := h.byID[n]; e != nil && in.zombie(e.part) {
			h.taint[e.part], zombie = true, true
		}
	}
	if zombie {
		h.r.Count("zombie-commits", 1)
	}
	if in.doneAt > 0 && x.Begin > in.doneAt {
		h.r.V("C07", "commit-after-done", "member %d committed transaction %d %.3f s after it signalled completion", in.node, x.ID, float64(h.w.Now()-in.doneAt)/1e9)
	}
	if in.failAt > 0 && x.Begin > in.failAt {
		h.r.V("C08", "commit-after-fail", "member %d committed transaction %d although its transactions failed %.3f s before (%s)", in.node, x.ID, float64(h.w.Now()-in.failAt)/1e9, in.failErr)
	}
	covered := map[int]bool{}
	n := 0
	for _, q := range sortedInts(commits) {
		c := commits[q]
		old := h.pos[q]
		h.r.OK("C02")
		if c.pos < old {
			h.v("C02", "backwards", q, "transaction %d of member %d moves the position of partition %d from %d back to %d", x.ID, in.node, q, old, c.pos)
		}
		if c.pos > int64(len(h.src[q])) {
			h.v("C02", "beyond-end", q, "transaction %d sets the position of partition %d to %d, beyond its end %d", x.ID, q, c.pos, len(h.src[q]))
			c.pos = int64(len(h.src[q]))
		}
		if c.n > 1 {
			h.r.Count("multi-commit-records", 1)
		}
		for o := old; o < c.pos; o++ {
			e := h.src[q][o]
			if e == nil || !e.visible() {
				continue
			}
			covered[e.id] = true
			n++
			e.committed++
			h.evTxn[e.id] = x
			h.r.OK("C02")
			if !e.doneBy[in] {
				h.v("C02", "unfinished", q, "transaction %d of member %d moves the position of partition %d to %d, past event %d at offset %d, which that member has not completed", x.ID, in.node, q, c.pos, e.id, o)
				if e.spec.Type == "bad" {
					h.v("C11", "policy-skipped", q, "transaction %d of member %d commits event %d (p%d@%d), which cannot be decoded, but the deserialization policy was not asked", x.ID, in.node, e.id, q, o)
				}
			}
			h.checkEffects(x, in, e, eff[e.id])
		}
		if c.pos > old {
			h.pos[q] = c.pos
			h.posBy[q], h.posWin[q] = in, in.wins[q]
		}
	}
	for _, id := range sortedEff(eff) {
		if covered[id] {
			continue
		}
		e := h.byID[id]
		if e == nil {
			continue
		}
		if e.committed > 0 {
			h.v("C01", "effects-twice", e.part, "transaction %d of member %d commits effects of event %d (p%d@%d) that were committed before", x.ID, in.node, e.id, e.part, e.off)
		} else {
			h.v("C01", "effects-without-position", e.part, "transaction %d of member %d commits effects of event %d (p%d@%d) but not its position (%d)", x.ID, in.node, e.id, e.part, e.off, h.pos[e.part])
		}
	}
	for id, is := range ij {
		y := h.ijs[id]
		h.r.OK("C10")
		if y == nil {
			continue
		}
		if h.ijTxn[id] != nil {
			h.v("C10", "emitted-twice", y.part, "records of interjection %s were committed twice", id)
		}
		h.ijTxn[id] = x
		if len(is) != y.emits {
			h.v("C10", "partial", y.part, "transaction %d commits %d of the %d records interjection %s emitted", x.ID, len(is), y.emits, id)
		}
		if !y.complete {
			h.v("C10", "commit-unfinished", y.part, "transaction %d commits records of interjection %s, which has not completed", x.ID, id)
		}
	}
	h.txnCover = append(h.txnCover, n)
	h.r.OK("C09")
	if n > int(h.p.K("maxbatch")) {
		h.r.V("C09", "too-many-events", "transaction %d of member %d takes in %d events, the maximum is %d", x.ID, in.node, n, h.p.K("maxbatch"))
	}
}

func sortedEff(m map[int]*effect) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// checkEffects compares what a transaction holds for an event it covers with what the event does.
func (h *H) checkEffects(x *simk.Txn, in *inst, e *srcEv, f *effect) {
	h.r.OK("C01")
	if f == nil {
		f = &effect{}
	}
	want := 0
	miss := ""
	if e.spec.Type != "bad" {
		for i := range e.spec.Outs {
			want++
			if f.recs[i] == nil {
				miss += fmt.Sprintf(" output %d", i)
			}
		}
		if e.spec.Store > 0 {
			want++
			if f.recs[-1] == nil {
				miss += " state change"
			}
			if h.p.K("simple") == 0 && twoChanges(e) {
				want++
				if f.recs[-2] == nil {
					miss += " second state change"
				}
			}
		}
	}
	if miss != "" {
		h.v("C01", "effects-missing", e.part, "transaction %d of member %d commits the position of event %d (p%d@%d) without its%s", x.ID, in.node, e.id, e.part, e.off, miss)
	}
	if f.dup || len(f.recs) > want {
		h.v("C01", "effects-repeated", e.part, "transaction %d of member %d holds effects of event %d (p%d@%d) more than once", x.ID, in.node, e.id, e.part, e.off)
	}
	for _, i := range sortedRec(f.recs) {
		r := f.recs[i]
		if i < 0 {
			if r.Part != e.part {
				h.v("C03", "change-partition", e.part, "state change of event %d of partition %d is in change log partition %d", e.id, e.part, r.Part)
			}
			if h.p.K("simple") > 0 {
				if string(r.Key) != e.spec.Key || !h.committedItem(e, r.Val) {
					h.v("C21", "change-altered", e.part, "state change of event %d was committed as key %q value %q, the store was given %q", e.id, r.Key, r.Val, e.texts)
				}
				continue
			}
			if t, _ := r.Header("__grt__"); (i == -1 && string(t) != changeType(e)) || (i == -2 && string(t) != "") {
				h.v("C01", "change-type", e.part, "state change %d of event %d was committed with type %q", -i, e.id, t)
			}
			if i == -2 {
				if k, v := secondChange(e); string(r.Key) != k || string(r.Val) != v {
					h.v("C01", "change-altered", e.part, "second state change of event %d was committed as key %q value %q", e.id, r.Key, r.Val)
				}
				continue
			}
			if string(r.Key) != e.spec.Key || (e.spec.Store == 1 && !strings.HasPrefix(string(r.Val), "v"+strconv.Itoa(e.id)+"<")) || (e.spec.Store == 2 && len(r.Val) > 0) {
				h.v("C01", "change-altered", e.part, "state change of event %d was committed as key %q value %q", e.id, r.Key, r.Val)
			}
			continue
		}
		if i >= len(e.spec.Outs) {
			continue
		}
		h.r.OK("C03")
		wantPart := int32(e.spec.Outs[i])
		if wantPart < 0 {
			wantPart = int32(murmur2([]byte("k"+e.spec.Key))&0x7fffffff) % int32(h.dparts)
		}
		if r.Part != wantPart {
			h.v("C03", "out-partition", e.part, "output %d of event %d is on partition %d, want %d", i, e.id, r.Part, wantPart)
		}
		o := outRec(e, i)
		bad := string(r.Key) != o.key || string(r.Val) != o.val || len(r.Hdrs) != len(o.hdrs)
		for _, x := range r.Hdrs {
			bad = bad || o.hdrs[x.Key] != string(x.Val)
		}
		if bad {
			h.v("C01", "output-altered", e.part, "output %d of event %d was committed as key %q value %.60q headers %q, want key %q value %.60q headers %q", i, e.id, r.Key, r.Val, r.Hdrs, o.key, o.val, o.hdrs)
		}
	}
}

func sortedRec(m map[int]*simk.Rec) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// murmur2 is Kafka's default key hash.
func murmur2(b []byte) uint32 {
	const m, rr = 0x5bd1e995, 24
	h := uint32(0x9747b28c) ^ uint32(len(b))
	for len(b) >= 4 {
		k := uint32(b[3])<<24 + uint32(b[2])<<16 + uint32(b[1])<<8 + uint32(b[0])
		b = b[4:]
		k *= m
		k ^= k >> rr
		k *= m
		h *= m
		h ^= k
	}
	switch len(b) {
	case 3:
		h ^= uint32(b[2]) << 16
		fallthrough
	case 2:
		h ^= uint32(b[1]) << 8
		fallthrough
	case 1:
		h ^= uint32(b[0])
		h *= m
	}
	h ^= h >> 13
	h *= m
	h ^= h >> 15
	return h
}

// ---- the timeline

func (h *H) live(m int) *inst {
	if m < 0 || m >= len(h.slots) {
		return nil
	}
	in := h.slots[m].in
	if in == nil || !in.alive() {
		return nil
	}
	return in
}

func (h *H) cl(op *core.Op) *simk.Cluster {
	if op.Str == "st" {
		return h.sc
	}
	return h.c
}

func (h *H) do(op *core.Op) {
	after := h.w.Now() > h.faultEnd
	switch op.Kind {
	case "ev":
		var rs []*simk.Rec
		evs := op.Evs
		if op.Ev != nil {
			evs = append(evs, op.Ev)
		}
		for _, s := range evs {
			rs = append(rs, h.addEvent(op.Part, s).rec)
		}
		h.w.Trace("%d events into partition %d", len(rs), op.Part)
		h.c.AppendDirect(srcTopic, op.Part, rs...)
		h.r.Count("events", int64(len(rs)))
		return
	case "evtxn":
		var rs []*simk.Rec
		for _, s := range op.Evs {
			rs = append(rs, h.addEvent(op.Part, s).rec)
		}
		end := h.c.DirectTxn(srcTopic, op.Part, rs...)
		h.openSrc++
		commit := op.N == 0
		h.w.Trace("open outside transaction with %d events in partition %d", len(rs), op.Part)
		h.w.After(op.Dur*1000, func() {
			h.w.Trace("outside transaction on partition %d ends, commit %v", op.Part, commit)
			end(commit)
			h.openSrc--
		})
		if commit {
			h.r.Count("events", int64(len(rs)))
		} else {
			h.r.Fault("source-txn-abort")
		}
		return
	case "start":
		if op.M < len(h.slots) {
			s := h.slots[op.M]
			s.restart = 500e6
			if op.Dur > 0 {
				s.restart = op.Dur * 1000
			}
			h.start(s)
		}
		return
	case "stop", "stopnow":
		if in := h.live(op.M); in != nil {
			s := h.slots[op.M]
			s.want = op.Dur > 0
			if op.Dur > 0 {
				s.restart = op.Dur * 1000
			}
			h.stop(in, op.Kind == "stopnow")
			h.r.Fault(op.Kind)
		}
		return
	case "usr1":
		if in := h.live(op.M); in != nil {
			h.usr1(in)
		}
		return
	case "on":
		h.trigs = append(h.trigs, &trig{op, op.Skip, 1, op.Evs})
		return
	case "interject":
		if in := h.live(op.M); in != nil && in.ready && op.Part >= 0 {
			go func() {
				runtime.SimSetNode(in.node)
				h.interject(in, op.Part, op)
			}()
		}
		return
	case "interjectall":
		if in := h.live(op.M); in != nil && in.ready {
			go func() {
				runtime.SimSetNode(in.node)
				h.interjectAll(in, op)
			}()
		}
		return
	case "poison": // somebody writes a value to the change log which the store cannot read
		h.r.Fault("undecodable-change")
		h.sc.AppendDirect(changeLog, op.Part, &simk.Rec{Key: []byte(poisonKey), Val: h.poison(op.N)})
		return
	case "compact":
		h.compacted = true
		h.sc.Compact(changeLog, op.N == 1 && !h.loading(), int64(op.Key))
		h.sc.Compact(commitLog, false, int64(op.Key))
		h.r.Fault("compaction")
		return
	}
	if after {
		return // faults only until the fault phase ends
	}
	switch op.Kind {
	case "crash":
		if in := h.live(op.M); in != nil {
			h.slots[op.M].want = op.Dur > 0
			h.slots[op.M].restart = op.Dur * 1000
			h.r.Fault("member-crash")
			h.die(in, "crash")
		}
	case "freeze":
		if in := h.live(op.M); in != nil && !h.frozen[in.node] {
			h.r.Fault("member-pause")
			h.w.Trace("member %d pauses for %d ms", in.node, op.Dur/1000)
			h.frozen[in.node] = true
			in.frozen = true
			runtime.SimFreeze(in.node, true)
			h.w.After(op.Dur*1000, func() {
				if h.frozen[in.node] && !in.dead {
					delete(h.frozen, in.node)
					in.frozen = false
					runtime.SimFreeze(in.node, false)
					h.w.Trace("member %d resumes", in.node)
				}
			})
		}
	case "skew":
		if in := h.live(op.M); in != nil {
			h.r.Fault("clock-skew")
			runtime.SimSkew(in.node, op.Arg*1000)
		}
	case "cut":
		if in := h.live(op.M); in != nil {
			c := h.cl(op)
			h.r.Fault("partition")
			c.Cut(in.node, op.Broker)
			h.w.After(op.Dur*1000, func() { c.Heal(in.node, op.Broker) })
		}
	case "reset":
		if in := h.live(op.M); in != nil {
			h.r.Fault("conn-reset")
			h.cl(op).ResetConns(in.node, op.Broker)
		}
	case "refuse":
		if in := h.live(op.M); in != nil {
			h.r.Fault("dial-refused")
			h.cl(op).RefuseDials(in.node, op.N)
		}
	case "bcrash":
		c := h.cl(op)
		h.r.Fault("broker-crash")
		c.Crash(op.Broker, op.Arg*1000)
		h.w.After(op.Dur*1000, func() { c.Restart(op.Broker) })
	case "stall":
		h.r.Fault("broker-stall")
		h.cl(op).Stall(op.Broker, op.Dur*1000)
	case "leader":
		h.r.Fault("leader-move")
		t := []string{srcTopic, dstTopic, commitLog, changeLog}[op.N%4]
		c := h.sc
		if t == srcTopic {
			c = h.c
		}
		c.MoveLeader(t, op.Part)
	case "gcoord":
		h.r.Fault("group-coordinator-move")
		h.c.MoveGroups()
	case "tcoord":
		h.r.Fault("txn-coordinator-move")
		h.sc.MoveTxns()
	case "rule":
		node := int32(0)
		if op.M >= 0 {
			in := h.live(op.M)
			if in == nil {
				return
			}
			node = in.node
		}
		kind, _, _ := strings.Cut(op.Str, "@")
		h.r.Fault("rpc-" + kind)
		rule := &simk.Rule{ID: op.ID, Node: node, Broker: op.Broker, Key: int16(op.Key), Skip: op.Skip, N: op.N, Kind: kind, Arg: op.Arg}
		if op.Dur > 0 { // a spell rather than a number of requests
			rule.Until, rule.Latch = h.r.W.Now()+op.Dur*1000, op.Ints != nil
		}
		c := h.sc
		switch int16(op.Key) {
		case 11, 12, 13, 14:
			c = h.c
		case 1:
			if op.ID%2 == 0 {
				c = h.c
			}
		}
		c.AddRule(rule)
	}
}

// loading tells whether some member is between the first record of a change log and the last one. A
// broker keeps tombstones for long enough that such a reader does not miss them (delete.retention.ms).
func (h *H) loading() bool {
	for _, in := range h.insts {
		if in.dead || in.doneAt > 0 {
			continue
		}
		for _, st := range in.stores {
			if st.win == nil && st.revoked == 0 {
				return true
			}
		}
	}
	return false
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ---- quiet phase

func (h *H) probes() {
	if h.p.K("probe") == 0 || h.overrun() {
		return
	}
	if !h.allCommitted() {
		return
	}
	runtime.SimQuiet()
	for _, in := range h.insts {
		if in.alive() {
			runtime.SimSkew(in.node, 0)
		}
	}
	h.quietAt = h.w.Now()
	h.w.Trace("---- quiet phase")
	time.Sleep(time.Second)
	delay := h.p.K("batch_delay") * 1000
	limit := 10*delay + 100e6 + 40*h.p.K("lat_max")*1000 + 4*h.p.K("marker_max")*1000
	judged := 0
	for i := 0; i < 12 && judged < 4; i++ {
		q := int32(i % h.parts)
		e := h.addEvent(q, &core.Ev{Type: "A", Key: "probe", Outs: []int{0}, Store: 1})
		h.c.AppendDirect(srcTopic, q, e.rec)
		t0 := h.w.Now()
		end := t0 + 100e9
		gen := h.lastGen
		for e.committed == 0 && h.w.Now() < end {
			time.Sleep(time.Millisecond)
		}
		if h.lastGen != gen {
			continue // a rebalance got in the way
		}
		h.r.OK("C09")
		if e.committed == 0 {
			h.v("C06", "probe-stuck", q, "an event appended to partition %d of the idle group is not committed after 100 s; members: %s", q, h.memberState())
			break
		}
		if x := h.evTxn[e.id]; x != nil && x.Node >= 0 && int(x.Node) < len(h.sc.SetupAt) {
			// a client that had to look up leaders, coordinators or connect again is not judged
			if h.sc.SetupAt[x.Node] < t0-1e9 {
				judged++
				if x.Decided-e.doneAt > limit {
					h.v("C09", "slow-commit", q, "at low load an event was committed %.1f ms after it completed; the batch delay is %.1f ms (limit %.1f ms)", float64(x.Decided-e.doneAt)/1e6, float64(delay)/1e6, float64(limit)/1e6)
				}
			}
		}
		time.Sleep(300 * time.Millisecond)
	}
	h.r.Count("probes-judged", int64(judged))
	// a few events so close together that the last ones find a transaction pending; nothing follows them
	rng := simk.NewRng(uint64(h.r.Plan.Seed) ^ 0x5eed)
	for i := 0; i < 6; i++ {
		n := rng.Range(2, 2*int(h.p.K("pool"))+3)
		gap := delay * int64(rng.Pick(0, 1, 5, 10, 15, 30)) / 10
		slow := int64(0)
		if rng.P(0.7) { // transactions take longer than the batch delay
			slow = delay * int64(rng.Range(2, 5))
			for _, c := range []*simk.Cluster{h.c, h.sc} {
				c.AddRule(&simk.Rule{Broker: -1, Key: 26, N: 2 * n, Kind: "delayresp", Arg: slow})
				if h.c == h.sc {
					break
				}
			}
		}
		t0, gen, conn := h.w.Now(), h.lastGen, true
		var es []*srcEv
		for j := 0; j < n; j++ {
			q := int32(rng.Intn(h.parts))
			e := h.addEvent(q, &core.Ev{Type: "A", Key: "probe", Outs: []int{0}, Store: 1})
			es = append(es, e)
			h.c.AppendDirect(srcTopic, q, e.rec)
			time.Sleep(time.Duration(gap))
		}
		last := es[len(es)-1]
		for end := h.w.Now() + 100e9; last.committed == 0 && h.w.Now() < end; {
			time.Sleep(time.Millisecond)
		}
		h.c.ClearRules()
		h.sc.ClearRules()
		time.Sleep(20*time.Millisecond + time.Duration(2*slow))
		done, more := int64(0), int64(0)
		for _, e := range es {
			x := h.evTxn[e.id]
			if x == nil || x.Node < 0 || int(x.Node) >= len(h.sc.SetupAt) {
				conn = false
				break
			}
			if h.sc.SetupAt[x.Node] >= t0-1e9 {
				more = 20e9 // to look up leaders and coordinators and to connect again
			}
			done = maxi(done, e.doneAt)
		}
		if h.lastGen != gen || !conn {
			continue
		}
		h.r.OK("C09")
		h.r.Count("bursts-judged", 1)
		for _, e := range es {
			if x := h.evTxn[e.id]; x.Decided-done > (limit+slow)*int64(n+1)+more {
				h.v("C09", "slow-commit", e.part, "the last of %d events within %.0f ms was committed %.1f ms after all had completed; the batch delay is %.1f ms (limit %.1f ms)", n, float64(gap)*float64(n)/1e6, float64(x.Decided-done)/1e6, float64(delay)/1e6, (float64(limit+slow)*float64(n+1)+float64(more))/1e6)
				break
			}
		}
		time.Sleep(300 * time.Millisecond)
	}
	h.trickle(rng, delay)
	for _, in := range h.insts {
		h.r.OK("C06")
		if in.failAt > h.quietAt+30e9 { // no transaction lives longer: this one began when faults were over
			h.r.V("C09", "times-out", "member %d failed on %q %.1f s after faults stopped and everything was committed: a transaction was not completed in time at low load", in.node, in.failErr, float64(in.failAt-h.quietAt)/1e9)
			h.r.V("C06", "fails-idle", "member %d failed on %q %.1f s after faults stopped and everything was committed", in.node, in.failErr, float64(in.failAt-h.quietAt)/1e9)
		}
	}
	// scheduled interjections keep firing
	if every := h.p.K("ij_every") * 1000; every > 0 {
		jit := h.p.K("ij_jitter") * 1000
		t0 := h.w.Now()
		gen := h.lastGen
		span := maxi(4*(every+jit)+2e9, 3e9)
		time.Sleep(time.Duration(span))
		if h.lastGen == gen {
			for _, in := range h.insts {
				if !in.alive() || in.stopAt > 0 {
					continue
				}
				for _, q := range sortedInts(in.wins) {
					w := in.wins[q]
					if w.openAt > t0 || w.willRev > 0 || in.zombie(q) {
						continue
					}
					n := int64(0)
					minGap := int64(1 << 62)
					prev := int64(0)
					for _, t := range w.ticks {
						if t >= t0 {
							n++
							if prev > 0 && t-prev < minGap {
								minGap = t - prev
							}
							prev = t
						}
					}
					h.r.OK("C10")
					lo := (span-1e9)/(every+jit+limit) - 1
					if n < lo {
						h.v("C10", "not-firing", q, "the scheduled interjection of partition %d on member %d fired %d times in %.1f s (every %.0f ms, jitter %.0f ms)", q, in.node, n, float64(span)/1e9, float64(every)/1e6, float64(jit)/1e6)
					}
					if n > 1 && minGap < every-jit-5e6 {
						h.v("C10", "fires-early", q, "the scheduled interjection of partition %d fired again after %.1f ms (every %.0f ms, jitter %.0f ms)", q, float64(minGap)/1e6, float64(every)/1e6, float64(jit)/1e6)
					}
				}
			}
		}
	}
	h.saturated()
}

// trickle feeds one partition at intervals shorter than the batch delay: the events which follow do not push back those before.
func (h *H) trickle(rng *simk.Rng, delay int64) {
	limit := 2*delay + 40e6 + 20*h.p.K("lat_max")*1000 + 4*h.p.K("marker_max")*1000
	gap := delay * int64(rng.Range(4, 8)) / 10
	if gap < 200e3 || h.overrun() {
		return
	}
	n := int(min(200, 3*limit/gap+5))
	q := int32(rng.Intn(h.parts))
	t0, gen := h.w.Now(), h.lastGen
	var es []*srcEv
	for i := 0; i < n; i++ {
		e := h.addEvent(q, &core.Ev{Type: "A", Key: "probe", Outs: []int{0}})
		es = append(es, e)
		h.c.AppendDirect(srcTopic, q, e.rec)
		time.Sleep(time.Duration(gap))
	}
	for end := h.w.Now() + 100e9; es[n-1].committed == 0 && h.w.Now() < end; {
		time.Sleep(time.Millisecond)
	}
	if h.lastGen != gen {
		return
	}
	for _, e := range es {
		x := h.evTxn[e.id]
		if x == nil || x.Node < 0 || int(x.Node) >= len(h.sc.SetupAt) || h.sc.SetupAt[x.Node] >= t0-1e9 {
			return
		}
	}
	h.r.Count("trickles-judged", 1)
	for _, e := range es {
		h.r.OK("C09")
		if x := h.evTxn[e.id]; x.Decided-e.doneAt > limit {
			h.v("C09", "slow-commit", q, "one of %d events every %.1f ms was committed %.1f ms after it completed; the batch delay is %.1f ms (limit %.1f ms)", n, float64(gap)/1e6, float64(x.Decided-e.doneAt)/1e6, float64(delay)/1e6, float64(limit)/1e6)
			return
		}
	}
}

// saturated hands one partition far more events than it can queue: its scheduled interjection keeps its turn.
func (h *H) saturated() {
	every, jit := h.p.K("ij_every")*1000, h.p.K("ij_jitter")*1000
	if every == 0 || every > 300e6 || h.overrun() || h.p.K("eos_default") > 0 { // (it can queue them all)
		return
	}
	var w *window
	q, gen := int32(0), h.lastGen
	for _, in := range h.insts {
		for _, k := range sortedInts(in.wins) {
			if x := in.wins[k]; w == nil && in.alive() && in.stopAt == 0 && x.willRev == 0 && !in.zombie(k) && len(x.ticks) > 0 {
				w, q = x, k
			}
		}
	}
	if w == nil {
		return
	}
	const n = 450
	cost := (every+jit)/20 + 1e6
	es := make([]*srcEv, n)
	recs := make([]*simk.Rec, n)
	for i := range es {
		es[i] = h.addEvent(q, &core.Ev{Type: "A", Key: "burst", Store: 1, Delay: cost / 1000})
		recs[i] = es[i].rec
	}
	t0 := h.w.Now()
	h.c.AppendDirect(srcTopic, q, recs...)
	for end := t0 + n*cost + 300e9; es[n-1].committed == 0 && h.w.Now() < end; {
		time.Sleep(10 * time.Millisecond)
	}
	if h.lastGen != gen || w.willRev != 0 || es[n-1].doneAt == 0 {
		return
	}
	h.r.OK("C10")
	h.r.Count("saturations-judged", 1)
	prev := int64(0)
	for _, t := range append(append([]int64(nil), w.ticks...), h.w.Now()) {
		if prev > 0 && t > t0 {
			due, late := prev+every+jit+30e6, 0
			for _, e := range es {
				if e.doneAt > due && e.doneAt < t {
					late++
				}
			}
			if late > 150 {
				h.v("C10", "starved", q, "%d events of partition %d were handled although its scheduled interjection was due (every %.0f ms, jitter %.0f ms; it last fired %.0f ms earlier)", late, q, float64(every)/1e6, float64(jit)/1e6, float64(t-prev)/1e6)
				break
			}
		}
		prev = t
	}
}

// ---- the whole history

func (h *H) final() {
	stopLimit := int64(100e9)
	for _, in := range h.insts {
		if in.stopAt > 0 && !in.crashed {
			from := maxi(in.stopAt, h.faultEnd)
			if in.stopAt > h.faultEnd {
				from = in.stopAt
			}
			lim := stopLimit
			if in.stopKind == "stopnow" {
				lim = 60e9
			}
			h.r.OK("C07")
			if in.doneAt == 0 && h.w.Now()-from > lim {
				h.r.V("C07", "never-done", "member %d: %s has not finished %.0f s later (%s)", in.node, in.stopKind, float64(h.w.Now()-in.stopAt)/1e9, h.winState(in))
			} else if in.doneAt > 0 && in.doneAt-from > lim {
				h.r.V("C07", "done-late", "member %d: %s took %.0f s", in.node, in.stopKind, float64(in.doneAt-in.stopAt)/1e9)
			}
		}
		if in.failAt > 0 && !in.crashed {
			from := maxi(in.failAt, h.faultEnd)
			if in.doneAt == 0 && h.w.Now()-from > stopLimit {
				h.r.V("C08", "never-leaves", "member %d failed on %q but has not stopped %.0f s later", in.node, in.failErr, float64(h.w.Now()-in.failAt)/1e9)
			}
			h.r.OK("C08")
		}
	}
	h.waits()
	for _, in := range h.insts {
		for _, x := range in.aborted {
			if in.crashed || in.frozen || in.stopAt > 0 && in.stopAt < x.Decided+10e9 || h.w.Now()-maxi(x.Decided, h.faultEnd) < 60e9 || h.overrun() {
				continue
			}
			h.r.OK("C08")
			if !in.unwell() {
				h.r.V("C08", "unnoticed", "transaction %d of member %d was aborted at %.3f s (%s) with %d records, but the member neither asked its error policy nor failed", x.ID, in.node, float64(x.Decided)/1e9, x.Reason, len(x.Recs))
				break
			}
		}
	}
	for _, in := range h.insts {
		for _, q := range sortedInts32(in.wins) {
			if w := in.wins[q]; !in.dead && !in.crashed && !in.frozen && !in.assigned[q] && h.w.Now()-maxi(w.openAt, h.faultEnd) > 20e9 && !h.overrun() {
				h.v("C05", "callback-order", q, "member %d was never told that partition %d, which it processes, is assigned", in.node, q)
			}
		}
	}
	h.order()
	for _, id := range sortedKeys(h.ijs) {
		x := h.ijs[id]
		if x.id[0] != 'i' || x.in.crashed || x.resolved > 0 {
			continue
		}
		from := maxi(x.issued, h.faultEnd)
		if h.w.Now()-from > 100e9 || (x.in.doneAt > 0 && h.w.Now()-maxi(x.in.doneAt, x.issued) > 4e9) {
			h.v("C10", "never-resolves", x.part, "interjection %s into partition %d of member %d has not resolved %.0f s later (ran: %d, member done: %v)", x.id, x.part, x.in.node, float64(h.w.Now()-x.issued)/1e9, x.execs, x.in.doneAt > 0)
		}
	}
	h.finalMetrics()
}

func (h *H) winState(in *inst) string {
	var b strings.Builder
	for _, q := range sortedInts(in.wins) {
		fmt.Fprintf(&b, "p%d%s ", q, in.wins[q].busy)
	}
	return b.String()
}

// order checks what a read-committed reader of the destination sees.
func (h *H) order() {
	t := h.sc.Topic(dstTopic)
	for _, p := range t.Parts {
		type mark struct {
			off int64
			i   int
			id  int
		}
		last := map[int32]mark{}
		for _, r := range p.Committed() {
			v, _ := r.Header("e")
			id, idx, _ := strings.Cut(string(v), ":")
			n, err := strconv.Atoi(id)
			if err != nil {
				continue
			}
			e := h.byID[n]
			if e == nil || e.spec.Mode != 0 {
				continue
			}
			i, _ := strconv.Atoi(idx)
			h.r.OK("C03")
			if l, ok := last[e.part]; ok && (e.off < l.off || (e.off == l.off && i <= l.i)) {
				h.v("C03", "order", e.part, "destination partition %d holds output %d of event %d (p%d@%d) after output %d of event %d (p%d@%d)", p.Num, i, e.id, e.part, e.off, l.i, l.id, e.part, l.off)
			}
			last[e.part] = mark{e.off, i, e.id}
		}
	}
	if t = h.sc.Topic(changeLog); t == nil {
		return
	}
	for _, p := range t.Parts {
		lastOff, lastID, lastI := int64(-1), 0, 0
		for _, r := range p.Committed() {
			v, ok := r.Header("e")
			if !ok {
				continue
			}
			id, idx, _ := strings.Cut(string(v), ":")
			n, _ := strconv.Atoi(id)
			i, _ := strconv.Atoi(idx)
			e := h.byID[n]
			if e == nil || e.spec.Mode != 0 {
				continue
			}
			h.r.OK("C03")
			if e.off < lastOff || (e.off == lastOff && i >= lastI) {
				h.v("C03", "change-order", e.part, "change log partition %d holds the change of event %d (@%d) after that of event %d (@%d)", p.Num, e.id, e.off, lastID, lastOff)
			}
			lastOff, lastID, lastI = e.off, e.id, i
		}
	}
}

func (h *H) stats() {
	r := h.r
	for _, c := range []*simk.Cluster{h.c, h.sc} {
		for _, k := range sortedKeys(c.Faults) {
			r.Res.Faults["net:"+k] += c.Faults[k]
		}
		if h.c == h.sc {
			break
		}
	}
	g := h.c.Group(groupID)
	r.Count("generations", int64(len(g.Gens)))
	r.Count("members", int64(len(h.insts)))
	r.Count("interjections", int64(h.nIJ))
	for _, evs := range h.src {
		for _, e := range evs {
			if e == nil {
				continue
			}
			if e.committed > 0 {
				r.Count("events-committed", 1)
			}
			if e.started > 1 {
				r.Count("events-reprocessed", 1)
			}
		}
	}
}

var _ kgo.Opt

func sortedInts32(m map[int32]*window) []int32 {
	b := map[int32]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedInts(b)
}
