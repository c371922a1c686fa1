package es

import (
	"os"
	"os/signal"
	"runtime"
	"syscall"

	"verifsim/simk"
)

// The ways for a process to wait for the end: knob "via".
const (
	viaDirect  = iota
	viaDefault // WaitForSignals, with nothing of its own
	viaHook    // WaitForSignals, with a hook and other signals
	viaChannel // WaitForChannel
	viaChanNil // WaitForChannel without a callback
	viaN
)

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// waiting is what is known about the member's call to WaitForSignals or WaitForChannel.
type waiting struct {
	regs     []sigReg
	notified bool
	asked    int64 // when told to stop by it
	back     int64 // when the call returned
	called   int   // callbacks
	ch       chan struct{}
	usr      int
	hooks    int
}

func (h *H) signals() {
	if h.p.K("via") == viaDirect {
		return
	}
	signal.SimHook = func(op int, c chan<- os.Signal, sigs []os.Signal) bool {
		in := h.byNode[runtime.SimNode()]
		if in == nil {
			return false
		}
		simk.Atomic(func() {
			switch op {
			case 0:
				in.wt.notified = true
				in.wt.regs = append(in.wt.regs, sigReg{c, append([]os.Signal{}, sigs...)})
			case 1:
				var keep []sigReg
				for _, g := range in.wt.regs {
					var left []os.Signal
					for _, s := range g.sigs {
						if len(sigs) > 0 && !has(sigs, s) {
							left = append(left, s)
						}
					}
					if len(left) > 0 {
						keep = append(keep, sigReg{g.c, left})
					}
				}
				in.wt.regs = keep
			case 2:
				var keep []sigReg
				for _, g := range in.wt.regs {
					if g.c != c {
						keep = append(keep, g)
					}
				}
				in.wt.regs = keep
			}
		})
		return true
	}
}

func has(l []os.Signal, s os.Signal) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// wait calls what a main function calls, once events are consumed.
func (h *H) wait(in *inst) {
	via := h.p.K("via")
	if via == viaDirect {
		return
	}
	in.wt.ch = make(chan struct{})
	go func() {
		runtime.SimSetNode(in.node)
		switch via {
		case viaDefault:
			in.es.WaitForSignals(nil)
		case viaHook:
			in.es.WaitForSignals(func(s os.Signal) bool {
				simk.Atomic(func() { in.wt.hooks++ })
				return s != syscall.SIGUSR1
			}, syscall.SIGTERM, syscall.SIGUSR1)
		case viaChannel:
			in.es.WaitForChannel(in.wt.ch, func() {
				simk.Atomic(func() {
					in.wt.called++
					h.waitBack(in, "called back")
				})
			})
		case viaChanNil:
			in.es.WaitForChannel(in.wt.ch, nil)
		}
		simk.Atomic(func() {
			h.waitBack(in, "returned")
			if in.dead && in.doneAt == 0 {
				return
			}
			if via == viaChannel && in.wt.called != 1 {
				h.r.V("C07", "callback", "member %d: WaitForChannel called back %d times", in.node, in.wt.called)
			}
			if len(in.wt.regs) > 0 {
				h.r.V("C07", "signals-kept", "member %d: WaitForSignals returned with signals not reset", in.node)
			}
			in.wt.back = h.w.Now()
			h.r.Count("waits-returned", 1)
		})
	}()
}

// waitBack judges the moment the wait is over.
func (h *H) waitBack(in *inst, what string) {
	if in.dead && in.doneAt == 0 {
		return // crashed
	}
	h.r.OK("C07")
	if in.wt.asked == 0 {
		h.r.V("C07", "wait-unasked", "member %d: the wait for the end %s without having been told to stop", in.node, what)
		return
	}
	select {
	case <-in.es.Done():
	default:
		h.r.V("C07", "wait-early", "member %d: the wait for the end %s before the member was done", in.node, what)
	}
}

// tell stops the member the way its main function expects, and reports whether that was possible.
// It runs on the member's node.
func (h *H) tell(in *inst) bool {
	via := h.p.K("via")
	if in.wt.ch == nil || in.wt.asked > 0 {
		return false
	}
	switch via {
	case viaChannel, viaChanNil:
		in.wt.asked = h.w.Now()
		if h.p.K("via_close") > 0 {
			close(in.wt.ch)
		} else {
			ch := in.wt.ch
			go func() { ch <- struct{}{} }()
		}
		return true
	}
	if !in.wt.notified {
		return false
	}
	want := []os.Signal{syscall.SIGINT, syscall.SIGHUP}
	if via == viaHook {
		want = []os.Signal{syscall.SIGTERM, syscall.SIGUSR1}
	}
	s := want[0]
	if via == viaDefault && h.p.K("via_close") > 0 {
		s = want[1]
	}
	for _, w := range want {
		if !h.awaited(in, w) {
			h.r.V("C07", "signal-not-awaited", "member %d: WaitForSignals does not wait for %v", in.node, w)
		}
	}
	in.wt.asked = h.w.Now()
	if !h.send(in, s) {
		in.wt.asked = 0
		return false
	}
	h.w.Trace("member %d: %v", in.node, s)
	return true
}

func (h *H) awaited(in *inst, s os.Signal) bool {
	for _, g := range in.wt.regs {
		if len(g.sigs) == 0 || has(g.sigs, s) {
			return true
		}
	}
	return false
}

// send delivers a signal like the Go runtime does: without waiting.
func (h *H) send(in *inst, s os.Signal) bool {
	ok := false
	for _, g := range in.wt.regs {
		if len(g.sigs) == 0 || has(g.sigs, s) {
			select {
			case g.c <- s:
				ok = true
			default:
			}
		}
	}
	return ok
}

// usr1 delivers a signal that the hook does not take for the end.
func (h *H) usr1(in *inst) {
	if h.p.K("via") != viaHook || !in.alive() || !in.ready || in.wt.asked > 0 || in.stopAt > 0 || in.frozen || !h.awaited(in, syscall.SIGUSR1) {
		return
	}
	go func() {
		runtime.SimSetNode(in.node)
		simk.Atomic(func() {
			if in.alive() && in.wt.asked == 0 && h.send(in, syscall.SIGUSR1) {
				in.wt.usr++
				h.r.Count("usr1", 1)
				h.w.Trace("member %d: SIGUSR1", in.node)
			}
		})
	}()
}

func (h *H) waits() {
	for _, in := range h.insts {
		if in.crashed || in.frozen {
			continue
		}
		if in.wt.asked > 0 && in.doneAt > 0 {
			h.r.OK("C07")
			if in.wt.back == 0 && h.w.Now()-maxi(in.doneAt, h.faultEnd) > 20e9 {
				h.r.V("C07", "wait-blocked", "member %d: the wait for the end has not returned %.0f s after the member was done", in.node, float64(h.w.Now()-in.doneAt)/1e9)
			}
		}
		if in.wt.back > 0 && h.p.K("via") == viaHook && in.wt.hooks != in.wt.usr+1 {
			h.r.V("C07", "hook-calls", "member %d: %d signals but %d calls of the hook", in.node, in.wt.usr+1, in.wt.hooks)
		}
	}
}
