package es

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"runtime"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"verifsim/core"
	"verifsim/simk"
)

// committedChanges returns the fold of the committed change log of a partition.
func (h *H) committedChanges(part int32) map[string]string {
	m := map[string]string{}
	t := h.sc.Topic(changeLog)
	if t == nil || int(part) >= len(t.Parts) {
		return m
	}
	for _, r := range t.Parts[part].All {
		if r.Ctrl != 0 || !r.Committed() {
			continue
		}
		if _, ok := r.Header("gkes__mark"); ok || string(r.Key) == poisonKey {
			continue
		}
		if len(r.Val) == 0 {
			delete(m, string(r.Key))
		} else {
			m[string(r.Key)] = string(r.Val)
		}
	}
	return m
}

func mapDiff(got, want map[string]string) string {
	d := []string{}
	for _, k := range sortedKeys(want) {
		if g, ok := got[k]; !ok {
			d = append(d, fmt.Sprintf("%s missing (want %q)", k, want[k]))
		} else if g != want[k] {
			d = append(d, fmt.Sprintf("%s=%q want %q", k, g, want[k]))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("%s=%q should not exist", k, got[k]))
		}
	}
	if len(d) > 4 {
		d = append(d[:4], "...")
	}
	return strings.Join(d, "; ")
}

func (in *inst) zombie(q int32) bool {
	return in.evicted > 0 && in.evicted < in.h.w.Now() || in.stale[q]
}

func (h *H) activated(in *inst, q int32) {
	h.w.Trace("member %d: partition %d activated, position %d", in.node, q, h.pos[q])
	st := in.stores[q]
	if in.zombie(q) {
		h.taint[q] = true // it takes over on the word of a generation which has ended
	}
	if old := in.wins[q]; old != nil {
		h.v("C05", "double-activation", q, "member %d activated partition %d twice", in.node, q)
	}
	w := &window{in: in, part: q, openAt: h.w.Now(), base: h.pos[q], last: -1, store: st}
	in.wins[q] = w
	if in.doneAt > 0 {
		h.v("C07", "activation-after-done", q, "member %d activated partition %d after it signalled completion", in.node, q)
	}
	if st == nil {
		h.v("C04", "no-store", q, "member %d activated partition %d without a store", in.node, q)
		return
	}
	h.r.OK("C04")
	if st.revoked > 0 {
		h.v("C04", "revoked-store", q, "member %d activated partition %d with a store that was told it is revoked", in.node, q)
	}
	if st.win != nil {
		h.v("C04", "store-reused", q, "member %d activated partition %d with a store of an earlier assignment", in.node, q)
	}
	st.win = w
	if h.p.K("store_err") == 0 {
		if d := mapDiff(st.m, h.committedChanges(q)); d != "" {
			h.v("C04", "store-differs", q, "member %d activated partition %d with a store that differs from the committed change log: %s", in.node, q, d)
		}
	}
	if st.b != nil {
		want := h.committedChanges(q)
		if h.taint[q] { // the log may still change under this member (C04): judge by what it was given
			want = st.m
		}
		st.bundledActivated(want)
	}
	h.r.Count("activations", 1)
}

func (h *H) nowAssigned(in *inst, q int32) {
	h.w.Trace("member %d: partition %d assigned", in.node, q)
	in.assigned[q] = true // may be repeated: the client repeats it when a rebalance overtakes the start
}

func (h *H) willRevoke(in *inst, q int32) {
	h.w.Trace("member %d: partition %d will be revoked", in.node, q)
	h.r.OK("C05")
	if !in.assigned[q] || in.going[q] {
		h.v("C05", "callback-order", q, "member %d was told that partition %d will be revoked; told that it is assigned: %v, told before: %v", in.node, q, in.assigned[q], in.going[q])
	}
	in.going[q] = true
	if w := in.wins[q]; w != nil {
		w.willRev = h.w.Now() + 1
	}
}

func (h *H) revoked(in *inst, q int32) {
	h.w.Trace("member %d: partition %d revoked", in.node, q)
	h.r.OK("C05")
	if !in.assigned[q] || !in.going[q] {
		h.v("C05", "callback-order", q, "member %d was told that partition %d is revoked; told that it is assigned: %v, that it will be revoked: %v", in.node, q, in.assigned[q], in.going[q])
	}
	h.needless(in, q)
	delete(in.assigned, q)
	delete(in.going, q)
	delete(in.stale, q)
	w := in.wins[q]
	if st := in.stores[q]; st != nil && st.revoked == 0 {
		h.v("C04", "store-not-told", q, "member %d: partition %d was revoked but its store was not told", in.node, q)
	}
	if w == nil {
		return
	}
	h.r.OK("C04")
	if w.busy != "" {
		h.v("C05", "busy-at-revoke", q, "member %d: partition %d was reported revoked while %s was running", in.node, q, w.busy)
	}
	w.revoked = true
	delete(in.wins, q)
}

// enter starts a piece of partition work.
func (h *H) enter(in *inst, q int32, what string) *window {
	w := in.wins[q]
	h.r.OK("C05")
	if in.doneAt > 0 {
		h.v("C07", "work-after-done", q, "member %d ran %s for partition %d %.3f s after it signalled completion", in.node, what, q, float64(h.w.Now()-in.doneAt)/1e9)
	}
	if w == nil {
		h.v("C05", "outside-window", q, "member %d ran %s for partition %d, which it does not own (not activated, or already revoked)", in.node, what, q)
		return nil
	}
	if w.busy != "" {
		h.v("C05", "overlap", q, "member %d ran %s of partition %d while %s was running", in.node, what, q, w.busy)
	}
	w.busy = what
	return w
}

func (h *H) leave(w *window) {
	if w != nil {
		w.busy = ""
	}
}

// handle is every event processor; via is the type it is registered for.
func (h *H) handle(in *inst, ec *streams.EventContext[*Store], rec streams.IncomingRecord, via string) streams.ExecutionState {
	var e *srcEv
	var w *window
	emit := 0
	q := ec.TopicPartition().Partition
	simk.Atomic(func() {
		w = h.enter(in, q, fmt.Sprintf(" in handler @%d", rec.Offset()))
		h.event("handle", in, q)
		if h.p.K("emit") == 1 && len(in.emitted) < 500 {
			in.emitted = append(in.emitted, h.w.Now())
			emit = len(in.emitted)
		}
		e = h.arrive(in, w, q, rec.Offset())
		if e == nil {
			return
		}
		h.r.OK("C11")
		want := e.spec.Type
		if want == "X" || want == "bad" {
			want = ""
		}
		if via != want {
			h.v("C11", "wrong-processor", q, "event %d of type %q went to the processor of type %q", e.id, e.spec.Type, via)
		}
		if e.spec.Type == "bad" {
			h.v("C11", "bad-handled", q, "undecodable event %d reached the processor %q", e.id, via)
		}
		if rt := rec.RecordType(); e.spec.Type != "bad" && rt != e.spec.Type {
			h.v("C11", "record-type", q, "event %d of type %q reports record type %q", e.id, e.spec.Type, rt)
		}
		if string(rec.Key()) != string(e.rec.Key) || string(rec.Value()) != string(e.rec.Val) {
			h.v("C11", "payload", q, "event %d arrived altered: key %q value %q", e.id, rec.Key(), rec.Value())
		}
		if inp, ok := ec.Input(); !ok || inp.Offset() != rec.Offset() || ec.Offset() != rec.Offset() || ec.IsInterjection() || rec.TopicPartition() != ec.TopicPartition() {
			h.v("C11", "context", q, "event %d at offset %d: its context says offset %d, interjection %v, partition %+v", e.id, rec.Offset(), ec.Offset(), ec.IsInterjection(), ec.TopicPartition())
		}
		hd := rec.Headers()
		n := 0
		for _, x := range e.rec.Hdrs {
			if x.Key == streams.RecordTypeHeaderKey {
				continue
			}
			n++
			if string(rec.HeaderValue(x.Key)) != string(x.Val) {
				h.v("C11", "header", q, "event %d: header %s is %q, want %q", e.id, x.Key, rec.HeaderValue(x.Key), x.Val)
			}
		}
		if len(hd) != n && len(hd) != len(e.rec.Hdrs) {
			h.v("C11", "headers", q, "event %d arrived with %d headers, sent %d", e.id, len(hd), len(e.rec.Hdrs))
		}
		if ec.Store() != w.storeOrNil() {
			h.v("C04", "other-store", q, "event %d is handled with a store that is not the activated one", e.id)
		} else if st := ec.Store(); st != nil && st.revoked > 0 {
			h.v("C05", "revoked-store-used", q, "member %d handles event %d with a store that was told it is revoked", in.node, e.id)
		}
	})
	if emit > 0 {
		in.es.EmitMetric(streams.Metric{StartTime: time.Unix(int64(emit), 0), EndTime: time.Unix(int64(emit)+3, 0), Operation: appOperation, Count: emit, Partition: q})
	}
	if e == nil {
		simk.Atomic(func() { h.leave(w) })
		return streams.Complete
	}
	mode := e.spec.Mode
	if in.sched == nil {
		mode = 0
	}
	if mode == 0 {
		if e.spec.Delay > 0 {
			time.Sleep(time.Duration(e.spec.Delay) * time.Microsecond)
		}
		h.effects(in, ec, e)
		simk.Atomic(func() { h.completed(in, w, e); h.leave(w) })
		return streams.Complete
	}
	var st streams.ExecutionState
	early := false // true while a call that may block is made: completions may run on this goroutine's behalf
	_ = early
	switch mode {
	case 1:
		st = in.sched.Schedule(ec, e.spec.Key, e)
	case 2:
		items := streams.NewBatchItems[*Store, string, *srcEv](ec, e.spec.Key, func(ec *streams.EventContext[*Store], b *streams.BatchItems[*Store, string, *srcEv]) streams.ExecutionState {
			return h.finish(in, ec, e)
		})
		for i := 0; i < e.id%3; i++ {
			items.Add(e)
		}
		st = in.batcher.Add(items)
	case 3:
		var rs []*streams.Record
		for i := 0; i <= e.id%3; i++ {
			rs = append(rs, streams.NewRecord().WithKeyString(e.spec.Key).WithValue([]byte(strconv.Itoa(e.id))))
		}
		st = in.bprod.Produce(ec, rs, func(ec *streams.EventContext[*Store], rs []*streams.Record, ud any) streams.ExecutionState {
			return h.finish(in, ec, e)
		}, nil)
	default:
		go func() {
			if e.spec.Delay > 0 {
				time.Sleep(time.Duration(e.spec.Delay) * time.Microsecond)
			}
			ec.AsyncJobComplete(func() streams.ExecutionState { return h.finish(in, ec, e) })
		}()
		st = streams.Incomplete
	}
	simk.Atomic(func() { h.leave(w) })
	return st
}

func (w *window) storeOrNil() *Store {
	if w == nil {
		return nil
	}
	return w.store
}

// arrive checks the order in which events are handed over.
func (h *H) arrive(in *inst, w *window, q int32, off int64) *srcEv {
	evs := h.src[q]
	if off < 0 || off >= int64(len(evs)) || evs[off] == nil {
		h.v("C05", "no-such-event", q, "member %d was handed offset %d of partition %d, which holds no event", in.node, off, q)
		return nil
	}
	e := evs[off]
	e.started++
	h.w.Trace("member %d: event %d (p%d@%d)", in.node, e.id, q, off)
	if !e.visible() {
		h.v("C05", "uncommitted-event", q, "member %d was handed event %d, which its producer did not commit", in.node, e.id)
	}
	if w == nil {
		return e
	}
	if w.last >= 0 && off <= w.last {
		h.v("C05", "order", q, "member %d was handed offset %d of partition %d after offset %d", in.node, off, q, w.last)
	}
	from := w.last + 1
	if w.last < 0 {
		from = w.base
		if off < w.base {
			h.v("C05", "starts-early", q, "member %d starts partition %d at offset %d although the committed position was %d when it took over", in.node, q, off, w.base)
		}
	}
	for o := from; o < off; o++ {
		if x := evs[o]; x != nil && x.visible() {
			p := "C05"
			if w.last < 0 {
				p = "C02"
			}
			h.v(p, "gap", q, "member %d was handed offset %d of partition %d but not event %d at offset %d before (position at takeover %d)", in.node, off, q, x.id, o, w.base)
			break
		}
	}
	h.r.OK("C02")
	w.last = off
	return e
}

// effects forwards the event's outputs and records its state change.
func (h *H) effects(in *inst, ec *streams.EventContext[*Store], e *srcEv) {
	st := ec.Store()
	val := "v" + strconv.Itoa(e.id)
	if e.spec.Store > 0 && st.b != nil {
		var cle streams.ChangeLogEntry
		simk.Atomic(func() {
			if e.spec.Store == 1 {
				cle = st.bundledPut(e)
			} else {
				cle = st.bundledDel(e)
			}
		})
		ec.RecordChange(cle.WithHeader("e", []byte(fmt.Sprintf("%d:-1", e.id))))
	} else if e.spec.Store > 0 {
		cle := streams.NewChangeLogEntry().WithHeader("e", []byte(fmt.Sprintf("%d:-1", e.id)))
		if t := changeType(e); t != "" {
			cle = cle.WithEntryType(t)
		}
		switch e.id % 3 {
		case 0:
			cle.WriteKeyString(e.spec.Key)
		case 1:
			cle.WriteKey([]byte(e.spec.Key))
		default:
			cle = cle.WithKey([]byte(e.spec.Key))
		}
		if e.spec.Store == 1 {
			simk.Atomic(func() {
				val = fmt.Sprintf("%s<%s", val, first(st.m[e.spec.Key], 12))
				st.m[e.spec.Key] = val
			})
			switch e.id % 4 {
			case 0:
				cle.WriteValueString(val)
			case 1:
				cle.WriteValue([]byte(val)[:1], []byte(val)[1:])
			case 2:
				cle.ValueWriter().WriteString(val)
			default:
				cle = cle.WithValue([]byte(val))
			}
		} else {
			simk.Atomic(func() { delete(st.m, e.spec.Key) })
		}
		if twoChanges(e) {
			k, v := secondChange(e)
			simk.Atomic(func() { st.m[k] = v })
			ec.RecordChange(cle, streams.NewChangeLogEntry().WithKeyString(k[:1], k[1:]).WithValue([]byte(v)).WithHeader("e", []byte(fmt.Sprintf("%d:-2", e.id))))
		} else {
			ec.RecordChange(cle)
		}
	}
	var rs []*streams.Record
	for i, d := range e.spec.Outs {
		o := outRec(e, i)
		r := streams.NewRecord().WithTopic(dstTopic).WithHeader("e", []byte(o.hdrs["e"]))
		switch e.id % 4 {
		case 0:
			r = r.WithKeyString(o.key).WithValue([]byte(o.val))
		case 3:
			r.WriteKey([]byte(o.key))
			r.WriteValueString(o.val)
		case 1:
			r.WriteKeyString(o.key)
			r.WriteValue([]byte(o.val)[:len(o.val)/2], []byte(o.val)[len(o.val)/2:])
		default:
			r.KeyWriter().WriteString(o.key)
			r.ValueWriter().WriteString(o.val)
		}
		if x, ok := o.hdrs["x"]; ok {
			r = r.WithHeader("x", []byte(x))
		}
		if t, ok := o.hdrs[streams.RecordTypeHeaderKey]; ok {
			r = r.WithRecordType(t)
		}
		if d >= 0 {
			r = r.WithPartition(int32(d))
		}
		if e.id%2 == 0 {
			rs = append(rs, r)
		} else {
			ec.Forward(r)
		}
	}
	if len(rs) > 0 {
		ec.Forward(rs...)
	}
}

type outSpec struct {
	key, val string
	hdrs     map[string]string
}

// outRec is the record an event forwards as its i. output.
func outRec(e *srcEv, i int) outSpec {
	o := outSpec{"k" + e.spec.Key, outVal(e, i), map[string]string{"e": fmt.Sprintf("%d:%d", e.id, i)}}
	z := (e.id*7 + i*3) % 10
	if z < 6 {
		o.hdrs[streams.RecordTypeHeaderKey] = []string{"out", "out", "other"}[z%3]
	}
	if z%4 == 0 {
		o.hdrs["x"] = strconv.Itoa(z)
	}
	if z == 9 {
		o.val = ""
	}
	if z == 5 && e.spec.Outs[i] >= 0 {
		o.key = ""
	}
	return o
}

// twoChanges: some events change two items of their store.
func twoChanges(e *srcEv) bool { return e.id%3 == 1 && e.spec.Store > 0 }

func secondChange(e *srcEv) (string, string) { return e.spec.Key + "2", "w" + strconv.Itoa(e.id) }

func changeType(e *srcEv) string {
	if e.id%4 == 1 {
		return "ch"
	}
	return ""
}

func outVal(e *srcEv, i int) string {
	v := fmt.Sprintf("o|%d|%d|%s", e.id, i, e.spec.Key)
	if e.spec.Size > 0 && i == 0 {
		v += strings.Repeat("z", e.spec.Size)
	}
	return v
}

func first(s string, n int) string {
	if i := strings.IndexByte(s, '<'); i >= 0 {
		s = s[:i]
	}
	return s
}

// finish is the asynchronous completion of an event; it runs in the partition's context.
func (h *H) finish(in *inst, ec *streams.EventContext[*Store], e *srcEv) streams.ExecutionState {
	var w *window
	simk.Atomic(func() {
		w = h.enter(in, ec.TopicPartition().Partition, fmt.Sprintf(" in completion of event %d", e.id))
	})
	runtime.SimYield()
	h.effects(in, ec, e)
	simk.Atomic(func() {
		if w != nil && e.doneWin == w {
			h.v("C14", "finalized-twice", e.part, "asynchronous event %d (mode %d) was completed twice in one assignment", e.id, e.spec.Mode)
		}
		h.completed(in, w, e)
		h.leave(w)
	})
	return streams.Complete
}

func (h *H) completed(in *inst, w *window, e *srcEv) {
	e.doneBy[in] = true
	e.doneWin, e.doneAt = w, h.w.Now()
	if w != nil {
		w.done++
	}
}

func (h *H) deserFailed(in *inst, ec streams.ErrorContext, typ string, err error) {
	q := ec.TopicPartition().Partition
	w := h.enter(in, q, " in the deserialization policy")
	e := h.arrive(in, w, q, ec.Offset())
	h.leave(w)
	if e == nil {
		return
	}
	h.r.OK("C11")
	if e.spec.Type != "bad" {
		h.v("C11", "policy-for-good", q, "event %d of type %q went to the deserialization policy: %v", e.id, e.spec.Type, err)
	}
	if typ != "A" || !errors.Is(err, errBad) {
		h.v("C11", "policy-args", q, "deserialization policy called with type %q error %v for event %d", typ, err, e.id)
	}
	if w != nil {
		if e.deser[w]++; e.deser[w] > 1 {
			h.v("C11", "policy-twice", q, "deserialization policy called %d times for event %d", e.deser[w], e.id)
		}
	}
	h.completed(in, w, e)
}

func (h *H) failed(in *inst, err error, want streams.ErrorResponse) {
	h.w.Trace("member %d: transaction error: %v", in.node, err)
	h.r.Count("txn-errors", 1)
	if in.failAt == 0 {
		in.failAt, in.failErr, in.failWant = h.w.Now(), err.Error(), want
		for i := h.p.K("fail_ij"); i > 0; i-- {
			q, d := int32(h.r.Rng.Intn(h.parts)), h.r.Rng.I63(int64(1+2000*(i%2)))*1000
			go func() {
				runtime.SimSetNode(in.node)
				time.Sleep(time.Duration(d))
				h.interject(in, q, &core.Op{Arg: 1})
			}()
		}
	}
}

// ---- interjections

func (h *H) tick(in *inst, ec *streams.EventContext[*Store], when time.Time) streams.ExecutionState {
	q := ec.TopicPartition().Partition
	var w *window
	var id string
	async := false
	simk.Atomic(func() {
		w = h.enter(in, q, " in a scheduled interjection")
		h.nIJ++
		in.ijs++
		id = fmt.Sprintf("t%d", h.nIJ)
		if w != nil {
			w.ticks = append(w.ticks, h.w.Now())
		}
		async = h.p.K("ij_async") == 1 && h.nIJ%2 == 0
		if in.stopAt == 0 || in.doneAt == 0 {
			h.r.OK("C10")
		}
		if !ec.IsInterjection() {
			h.v("C10", "not-interjection", q, "scheduled interjection context does not say so")
		}
	})
	emit := func() {
		if h.p.K("ij_emit") == 1 {
			simk.Atomic(func() { h.ijs[id] = &ijRec{id: id, in: in, part: q, emits: 2, win: w} })
			for i := 0; i < 2; i++ {
				ec.Forward(streams.NewRecord().WithTopic(dstTopic).WithKeyString("ij").WithValue([]byte(id)).
					WithHeader("e", []byte(fmt.Sprintf("%s:%d", id, i))).WithPartition(int32(i % h.dparts)))
			}
		}
	}
	if async {
		simk.Atomic(func() { h.leave(w) })
		go func() {
			time.Sleep(3 * time.Millisecond)
			ec.AsyncJobComplete(func() streams.ExecutionState {
				var w2 *window
				simk.Atomic(func() { w2 = h.enter(in, q, " in a completion of an interjection") })
				emit()
				simk.Atomic(func() {
					if x := h.ijs[id]; x != nil {
						x.complete = true
					}
					h.leave(w2)
				})
				return streams.Complete
			})
		}()
		return streams.Incomplete
	}
	emit()
	simk.Atomic(func() {
		if x := h.ijs[id]; x != nil {
			x.complete = true
		}
		h.leave(w)
	})
	return streams.Complete
}

// interject issues a one-off interjection. Runs on the member's node.
func (h *H) interject(in *inst, q int32, op *core.Op) {
	var x *ijRec
	simk.Atomic(func() {
		h.nIJ++
		x = &ijRec{id: fmt.Sprintf("i%d", h.nIJ), in: in, part: q, issued: h.w.Now(), async: op.Arg&2 != 0}
		if op.Arg&1 != 0 {
			x.emits = 1 + h.nIJ%2
		}
		h.ijs[x.id] = x
		if w := in.wins[q]; w != nil && w.willRev == 0 {
			x.owned = true
		}
		h.w.Trace("member %d: interject %s into partition %d", in.node, x.id, q)
	})
	c := in.es.Interject(q, func(ec *streams.EventContext[*Store], when time.Time) streams.ExecutionState {
		return h.runInterjection(in, x, ec, op)
	})
	err, ok := <-c
	simk.Atomic(func() {
		h.w.Trace("member %d: interjection %s resolved: %v %v", in.node, x.id, err, ok)
		x.resolved, x.err = h.w.Now(), err
		x.nresolve++
		h.r.OK("C10")
		if err != nil && x.execs > 0 {
			h.v("C10", "error-but-ran", q, "interjection %s resolved with %v although it ran", x.id, err)
		}
		if err == nil && x.execs == 0 {
			h.v("C10", "ok-but-not-run", q, "interjection %s into partition %d resolved without error but did not run", x.id, q)
		}
	})
}

func (h *H) runInterjection(in *inst, x *ijRec, ec *streams.EventContext[*Store], op *core.Op) streams.ExecutionState {
	var w *window
	q := ec.TopicPartition().Partition
	simk.Atomic(func() {
		w = h.enter(in, q, " in interjection "+x.id)
		x.execs++
		x.win, x.execAt = w, h.w.Now()
		if x.execs > 1 {
			h.v("C10", "ran-twice", q, "one-off interjection %s ran %d times", x.id, x.execs)
		}
		if x.resolved > 0 {
			h.v("C10", "ran-after-resolve", q, "interjection %s ran after its channel had resolved", x.id)
		}
		if q != x.part {
			h.v("C10", "wrong-partition", q, "interjection %s into partition %d ran in partition %d", x.id, x.part, q)
		}
	})
	if op.Dur > 0 {
		time.Sleep(time.Duration(op.Dur) * time.Microsecond)
	}
	emit := func() {
		for i := 0; i < x.emits; i++ {
			ec.Forward(streams.NewRecord().WithTopic(dstTopic).WithKeyString("ij").WithValue([]byte(x.id)).
				WithHeader("e", []byte(fmt.Sprintf("%s:%d", x.id, i))).WithPartition(int32(i % h.dparts)))
		}
	}
	if x.async {
		simk.Atomic(func() { h.leave(w) })
		go func() {
			time.Sleep(2 * time.Millisecond)
			ec.AsyncJobComplete(func() streams.ExecutionState {
				var w2 *window
				simk.Atomic(func() { w2 = h.enter(in, q, " in completion of interjection "+x.id) })
				emit()
				simk.Atomic(func() { x.complete = true; h.leave(w2) })
				return streams.Complete
			})
		}()
		return streams.Incomplete
	}
	emit()
	simk.Atomic(func() { x.complete = true; h.leave(w) })
	return streams.Complete
}

var _ kgo.Opt
