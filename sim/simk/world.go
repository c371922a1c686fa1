// Package simk is a simulated Kafka cluster that speaks the Kafka wire protocol over in-memory
// connections, driven by one discrete-event queue on simulated time.
package simk

import (
	"container/heap"
	"fmt"
	"runtime"
	"time"
)

// Rng is a small seeded generator (splitmix64).
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) I63(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}
func (r *Rng) Float() float64       { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool     { return r.Float() < p }
func (r *Rng) Range(a, b int) int   { return a + r.Intn(b-a+1) }
func (r *Rng) Pick(xs ...int) int   { return xs[r.Intn(len(xs))] }
func Pick[T any](r *Rng, xs ...T) T { return xs[r.Intn(len(xs))] }

type event struct {
	at  int64
	seq uint64
	f   func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// World owns the event queue. All of its callbacks run one at a time on node 0.
type World struct {
	q       evHeap
	seq     uint64
	wake    chan struct{}
	Start   int64
	Verbose bool
	Lines   []string
	hash    uint64
	lines   uint64
	OnEvent func()
}

func NewWorld() *World {
	w := &World{wake: make(chan struct{}, 1), Start: runtime.SimNow()}
	go w.loop()
	return w
}

// Atomic runs f as harness code: it is never preempted, whatever goroutine it runs on.
func Atomic(f func()) {
	n := runtime.SimNode()
	runtime.SimSetNode(0)
	f()
	runtime.SimSetNode(n)
}

// Now is the simulated time since the start of the run, in ns.
func (w *World) Now() int64 { return runtime.SimNow() - w.Start }

func (w *World) At(t int64, f func()) {
	Atomic(func() {
		w.seq++
		heap.Push(&w.q, event{t, w.seq, f})
		select {
		case w.wake <- struct{}{}:
		default:
		}
	})
}

func (w *World) After(d int64, f func()) { w.At(w.Now()+d, f) }

func (w *World) loop() {
	for {
		for len(w.q) > 0 && w.q[0].at <= w.Now() {
			e := heap.Pop(&w.q).(event)
			e.f()
			if w.OnEvent != nil {
				w.OnEvent()
			}
		}
		d := time.Hour
		if len(w.q) > 0 {
			d = time.Duration(w.q[0].at - w.Now())
		}
		t := time.NewTimer(d)
		select {
		case <-w.wake:
		case <-t.C:
		}
		t.Stop()
	}
}

// Trace records a line of the run's event log. It never perturbs the schedule.
func (w *World) Trace(format string, args ...any) {
	Atomic(func() {
		s := fmt.Sprintf("%12.6f ", float64(w.Now())/1e9) + fmt.Sprintf(format, args...)
		for i := 0; i < len(s); i++ {
			w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
		}
		w.hash += 0x9e3779b97f4a7c15
		w.lines++
		if w.Verbose {
			w.Lines = append(w.Lines, s)
		}
	})
}

func (w *World) TraceHash() (uint64, uint64) { return w.hash, w.lines }

// Note adds a line to a verbose trace only; it is not part of the run's hash.
func (w *World) Note(f func() string) {
	Atomic(func() {
		s := fmt.Sprintf("%12.6f     ", float64(w.Now())/1e9) + f() // either way, so that memory looks the same
		if w.Verbose {
			w.Lines = append(w.Lines, s)
		}
	})
}

// Hash64 is FNV-1a.
func Hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
