package async

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"time"

	"verifsim/core"
	"verifsim/simk"

	"github.com/aws/go-kafka-event-source/streams"
)

type bitem = streams.BatchItem[string, *bval]
type bitems = streams.BatchItems[store, string, *bval]

// bval is an item of a container.
type bval struct {
	id         int
	c          *container
	key        string
	starts     int
	start, end int64
	err        error
}

type container struct {
	id, part  int
	key       string
	keys      map[string]bool
	items     []*bval
	b         *bitems
	ec        *streams.EventContext[store]
	cb        bool
	call, ret int64
	retAt     int64
	dones     int
	done      int64
	cbs       int
	fin       int64
	ud        *int
}

type bpart struct {
	id    int
	queue []*container
	kick  chan struct{}
	comp  []bcompletion
	ckick chan struct{}
}

type bcompletion struct {
	c *container
	f func() streams.ExecutionState
}

type B struct {
	r       *core.Run
	p       *core.Plan
	ab      *streams.AsyncBatcher[store, string, *bval]
	parts   []*bpart
	cs      []*container
	all     []*bval
	seq     int64
	running []map[string]bool // keys of the batches being executed
	size    int
	conc    int
	durs    []int64
	stall   map[string]int64
	batches int
	delay   int64
	fail    bool
}

func (h *B) now() int64 { return h.r.W.Now() }
func (h *B) tick() int64 {
	h.seq++
	return h.seq
}

type bcompleter struct {
	h *B
	c *container
}

func (x bcompleter) AsyncComplete(aj streams.AsyncJob[store]) {
	h, c := x.h, x.c
	simk.Atomic(func() {
		h.r.OK("C16")
		c.dones++
		c.done = h.tick()
		h.r.W.Trace("container %d is handed back", c.id)
		if c.dones > 1 {
			h.r.V("C16", "complete-twice", "container %d is handed back %d times", c.id, c.dones)
		}
		for _, it := range c.items {
			if it.end == 0 {
				h.r.V("C16", "early-complete", "container %d is handed back although its item %d has not been executed", c.id, it.id)
				break
			}
		}
		// containers which have but one key take their turn
		if len(c.keys) == 1 {
			for _, o := range h.cs {
				if o != c && len(o.keys) == 1 && o.key == c.key && o.ret > 0 && o.ret < c.call && o.dones == 0 {
					h.r.V("C16", "complete-order", "key %s: container %d is handed back before container %d, which was added first", c.key, c.id, o.id)
				}
			}
		}
		p := h.parts[c.part]
		p.comp = append(p.comp, bcompletion{c, aj.Finalize})
		select {
		case p.ckick <- struct{}{}:
		default:
		}
	})
}

func (h *B) execute(batch []*bitem) {
	var dur int64
	keys := map[string]bool{}
	simk.Atomic(func() {
		h.r.OK("C16")
		h.batches++
		ids := []int{}
		pos := map[*bval]int{}
		for i, bi := range batch {
			if bi == nil || bi.Value == nil {
				h.r.V("C16", "foreign-item", "a batch contains something that nobody added")
				continue
			}
			pos[bi.Value] = i
			ids = append(ids, bi.Value.id)
		}
		h.r.W.Trace("batch of items %v starts", ids)
		if len(batch) > h.size {
			h.r.V("C16", "too-large", "a batch of %d items is executed, the maximum is %d", len(batch), h.size)
		}
		if len(batch) == 0 {
			h.r.V("C16", "empty", "the executor is given an empty batch")
		}
		for _, bi := range batch {
			if bi == nil || bi.Value == nil {
				continue
			}
			v := bi.Value
			v.starts++
			v.start = h.tick()
			keys[v.key] = true
			if v.starts > 1 {
				h.r.V("C16", "executed-twice", "item %d (key %s) is executed %d times", v.id, v.key, v.starts)
			}
			if bi.Key() != v.key {
				h.r.V("C16", "wrong-key", "item %d was added with key %s, it is executed with key %s", v.id, v.key, bi.Key())
			}
			for _, m := range h.running {
				if m[v.key] {
					h.r.V("C16", "overlap", "item %d starts while another batch with items of its key %s is running", v.id, v.key)
				}
			}
		}
		// order of addition: within a container, and between containers if one was added after the other
		for i, bi := range batch {
			if bi == nil || bi.Value == nil {
				continue
			}
			v := bi.Value
			for _, o := range h.all {
				if o == v || o.key != v.key || !before(o, v) {
					continue
				}
				if j, ok := pos[o]; ok && j > i || !ok && o.starts == 0 {
					h.r.V("C16", "order", "key %s: item %d is executed before item %d, which was added first", v.key, v.id, o.id)
				}
			}
		}
		h.running = append(h.running, keys)
		if n := int64(len(h.running)); n > h.r.Res.Counts["max-running-batches"] {
			h.r.Res.Counts["max-running-batches"] = n
		}
		if len(h.running) > h.conc {
			h.r.V("C16", "too-many-batches", "%d batches are running at once, the maximum is %d", len(h.running), h.conc)
		}
		dur = h.durs[h.batches%len(h.durs)]
	})
	if dur > 0 {
		time.Sleep(time.Duration(dur))
	}
	simk.Atomic(func() {
		for i, bi := range batch {
			if bi == nil || bi.Value == nil {
				continue
			}
			v := bi.Value
			v.end = h.tick()
			if h.fail && (v.id+i)%3 == 0 {
				v.err = errors.New(fmt.Sprint("item ", v.id))
			}
			bi.Err = v.err
			bi.UserData = v.id
		}
		for i, m := range h.running {
			if fmt.Sprintf("%p", m) == fmt.Sprintf("%p", keys) {
				h.running = append(h.running[:i:i], h.running[i+1:]...)
				break
			}
		}
		h.r.W.Trace("batch ends")
	})
}

// before: o was added before v
func before(o, v *bval) bool {
	if o.c == v.c {
		return o.id < v.id
	}
	return o.c.ret > 0 && o.c.ret < v.c.call
}

func (h *B) callback(c *container) streams.BatchCallback[store, string, *bval] {
	return func(ec *streams.EventContext[store], b *bitems) streams.ExecutionState {
		simk.Atomic(func() {
			h.r.OK("C16")
			c.cbs++
			if c.cbs > 1 {
				h.r.V("C16", "callback-twice", "the callback of container %d is invoked %d times", c.id, c.cbs)
			}
			if ec != c.ec || b != c.b || b.Key() != c.key {
				h.r.V("C16", "callback-args", "the callback of container %d is invoked with another container (%v) or event (%v)", c.id, b != c.b, ec != c.ec)
				return
			}
			if b.UserData != any(c.ud) {
				h.r.V("C16", "user-data", "the callback of container %d finds different user data", c.id)
			}
			got := b.Items()
			if len(got) != len(c.items) {
				h.r.V("C16", "callback-items", "the callback of container %d sees %d items instead of %d", c.id, len(got), len(c.items))
				return
			}
			for i, it := range c.items {
				if it.end == 0 {
					h.r.V("C16", "early-callback", "the callback of container %d is invoked although its item %d has not been executed", c.id, it.id)
					return
				}
				if got[i].Value != it || got[i].Err != it.err || got[i].UserData != any(it.id) {
					h.r.V("C16", "results", "the callback of container %d finds a wrong result for its item %d: %v %v", c.id, it.id, got[i].Err, got[i].UserData)
				}
			}
		})
		return streams.Complete
	}
}

func (p *bpart) adder(h *B) {
	for {
		for len(p.queue) > 0 {
			var c *container
			simk.Atomic(func() {
				c = p.queue[0]
				p.queue = p.queue[1:]
				c.call = h.tick()
				h.r.W.Trace("container %d (key %s, %d items) is added", c.id, c.key, len(c.items))
			})
			st := h.ab.Add(c.b)
			simk.Atomic(func() {
				c.ret, c.retAt = h.tick(), h.now()
				if st != streams.Incomplete {
					h.r.V("C16", "add-state", "Add of container %d returns %v", c.id, st)
				}
			})
		}
		<-p.kick
	}
}

func (p *bpart) completer(h *B) {
	for {
		for len(p.comp) > 0 {
			var x bcompletion
			simk.Atomic(func() { x = p.comp[0]; p.comp = p.comp[1:] })
			st := x.f()
			simk.Atomic(func() {
				x.c.fin = h.tick()
				if st != streams.Complete {
					h.r.V("C16", "finalize-state", "container %d completes with state %v", x.c.id, st)
				}
				if x.c.cb && x.c.cbs == 0 {
					h.r.V("C16", "no-callback", "container %d is finalized without its callback", x.c.id)
				}
			})
		}
		<-p.ckick
	}
}

// watch looks for items that could be executed but are not.
func (h *B) watch() {
	for {
		time.Sleep(100 * time.Millisecond)
		could := map[string]string{}
		if len(h.running) < h.conc {
			for _, c := range h.cs {
				if c.ret == 0 {
					continue
				}
				for _, it := range c.items {
					busy := false
					for _, m := range h.running {
						busy = busy || m[it.key]
					}
					if it.starts == 0 && !busy {
						could["key "+it.key] = fmt.Sprintf("item %d (key %s) is not executed, only %d of %d batches are running", it.id, it.key, len(h.running), h.conc)
					}
				}
				if len(c.items) == 0 && c.dones == 0 && len(h.running) == 0 {
					could[fmt.Sprint("container ", c.id)] = fmt.Sprintf("container %d, which has no items, is not handed back although no batch is running", c.id)
				}
			}
		}
		ks := make([]string, 0, len(could))
		for k := range could {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for k := range h.stall {
			if _, ok := could[k]; !ok {
				delete(h.stall, k)
			}
		}
		for _, k := range ks {
			if h.stall[k] == 0 {
				h.stall[k] = h.now()
			} else if h.now()-h.stall[k] > patience+h.delay {
				h.r.V("C16", "stalled", "for %.1f s: %s", float64(patience+h.delay)/1e9, could[k])
			}
		}
	}
}

func runBatch(r *core.Run) {
	p := r.Plan
	h := &B{r: r, p: p, size: int(p.K("size")), conc: int(p.K("conc")), stall: map[string]int64{}, delay: p.K("delay") * 1000, fail: p.K("fail") > 0}
	if h.delay < 0 {
		h.delay = -h.delay
	}
	for _, o := range p.Ops {
		if o.Kind == "durs" {
			for _, d := range o.Ints {
				h.durs = append(h.durs, d*1000)
			}
		}
	}
	if len(h.durs) == 0 {
		h.durs = []int64{0}
	}
	runtime.SimSetNode(1)
	h.ab = streams.NewAsyncBatcher[store, string, *bval](h.execute, h.size, h.conc, p.D("delay"))
	runtime.SimSetNode(0)
	for i := 0; i < int(p.K("parts")); i++ {
		pt := &bpart{id: i, kick: make(chan struct{}, 1), ckick: make(chan struct{}, 1)}
		h.parts = append(h.parts, pt)
		runtime.SimSetNode(1)
		go pt.adder(h)
		go pt.completer(h)
		runtime.SimSetNode(0)
	}
	go h.watch()
	last := int64(0)
	for _, o := range p.Ops {
		last = max(last, o.At*1000)
		if o.Kind != "add" {
			continue
		}
		c := &container{id: o.ID, part: int(o.Part), key: fmt.Sprintf("k%d", o.Key), keys: map[string]bool{}, cb: o.Arg == 0, ud: new(int)}
		c.keys[c.key] = true
		c.ec = streams.MockEventContext[store](context.Background(), nil, "", store{}, bcompleter{h, c}, nil)
		var cb streams.BatchCallback[store, string, *bval]
		if c.cb {
			cb = h.callback(c)
		}
		c.b = streams.NewBatchItems(c.ec, c.key, cb)
		c.b.UserData = c.ud
		for _, k := range o.Ints { // -1: the container's own key
			v := &bval{id: len(h.all) + 1, c: c, key: c.key}
			if k >= 0 {
				v.key = fmt.Sprintf("k%d", k)
				c.keys[v.key] = true
				c.b.AddWithKey(v.key, v)
			} else {
				c.b.Add(v)
			}
			h.all = append(h.all, v)
			c.items = append(c.items, v)
		}
		h.cs = append(h.cs, c)
		r.W.At(o.At*1000, func() {
			pt := h.parts[c.part]
			pt.queue = append(pt.queue, c)
			select {
			case pt.kick <- struct{}{}:
			default:
			}
		})
	}
	longest := int64(0)
	for _, d := range h.durs {
		longest = max(longest, d)
	}
	time.Sleep(time.Duration(last + int64(len(h.all)+len(h.cs))*(longest+h.delay+25e6) + 2*patience + 2*h.delay))
	for _, c := range h.cs {
		r.OK("C16")
		for _, it := range c.items {
			if it.starts == 0 {
				r.V("C16", "lost", "item %d (key %s) of container %d was never executed", it.id, it.key, c.id)
			}
		}
		if c.dones == 0 {
			r.V("C16", "not-completed", "container %d (key %s, %d items) was never handed back", c.id, c.key, len(c.items))
		}
	}
	r.Count("items", int64(len(h.all)))
	r.Count("containers", int64(len(h.cs)))
	r.Count("batches", int64(h.batches))
	a := runtime.SimGetStats().Steps
	time.Sleep(10 * time.Second)
	b := runtime.SimGetStats()
	if d := b.Steps - a; d > 20000 || b.Overrun {
		r.V("C16", "spins", "the batcher takes %d steps in 10 s although there is nothing to do", d)
	}
}

func genBatch(g *simk.Rng, p *core.Plan) {
	p.Set("batch", 1)
	parts := g.Range(1, 4)
	p.Set("parts", int64(parts))
	p.Set("size", int64(g.Pick(1, 1, 2, 2, 3, 5, 10)))
	p.Set("conc", int64(g.Pick(1, 1, 2, 2, 3, 5)))
	p.Set("delay", int64(g.Pick(0, 100, 1000, 5000, 100000, -1000, 2000000)))
	if g.P(0.4) {
		p.Set("fail", 1)
	}
	nkeys := g.Pick(1, 2, 3, 5, 10)
	span := int64(g.Pick(1, 1000, 20000, 200000, 2000000))
	shared, multi, empty := g.P(0.5), g.P(0.4), g.P(0.6)
	for i := g.Pick(3, 10, 20, 50); i > 0; i-- {
		o := p.Add(&core.Op{At: g.I63(span), Kind: "add", Part: int32(g.Intn(parts)), Key: g.Intn(nkeys)})
		if g.P(0.3) {
			o.At = span / 2
		}
		if !shared {
			o.Key = int(o.Part)*100 + o.Key
		}
		if g.P(0.15) {
			o.Arg = 1 // no callback
		}
		n := g.Pick(1, 1, 2, 3, 6)
		if empty && g.P(0.3) {
			n = 0
		}
		for ; n > 0; n-- {
			k := int64(-1)
			if multi && g.P(0.4) {
				k = int64(g.Intn(nkeys))
				if !shared {
					k += int64(o.Part) * 100
				}
			}
			o.Ints = append(o.Ints, k)
		}
	}
	d := p.Add(&core.Op{Kind: "durs"})
	for i := g.Range(1, 4); i > 0; i-- {
		d.Ints = append(d.Ints, int64(g.Pick(0, 0, 10, 1000, 5000, 50000, 500000)))
	}
	p.Sort()
}
