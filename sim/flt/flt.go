// Package flt generates and injects the network and broker faults which client-only scenarios share.
package flt

import (
	"verifsim/core"
	"verifsim/simk"
)

// Codes a broker may answer a request with, by request, which clients are expected to retry.
var codes = map[int][]int{0: {6, 3, 7, 19, 20}, 1: {6, 3}, 2: {6, 3}, 3: {5}, 10: {15}, 19: {41, 7}, 22: {14, 15, 16, 51}}

// Gen adds faults to plans.
type Gen struct {
	R       *simk.Rng
	P       *core.Plan
	End     int64 // us, faults begin before
	Nodes   int
	Brokers int
	Topics  []string
	Parts   int
}

func (g *Gen) at() int64          { return int64(g.R.Intn(int(g.End))) }
func (g *Gen) broker() int32      { return int32(g.R.Range(1, g.Brokers)) }
func (g *Gen) node() int          { return g.R.Intn(g.Nodes) }
func (g *Gen) ms(xs ...int) int64 { return int64(g.R.Pick(xs...)) * 1000 }

// Rule arms a fault on requests of some kinds.
func (g *Gen) Rule(kinds []string, keys []int) {
	r := g.R
	o := &core.Op{At: g.at(), Kind: "rule", M: g.node(), Broker: -1, Key: keys[r.Intn(len(keys))], Str: kinds[r.Intn(len(kinds))], N: r.Pick(1, 1, 1, 2, 4, 12)}
	if r.P(0.3) {
		o.M = -1
	}
	if r.P(0.3) {
		o.Broker = g.broker()
	}
	o.Skip = r.Pick(0, 0, 0, 1, 2, 5)
	switch o.Str {
	case "delay", "delayresp":
		o.Arg = int64(r.Pick(5, 50, 500, 2000, 7000)) * 1e6
	case "err", "errafter":
		cs := codes[o.Key]
		if len(cs) == 0 {
			o.Str = "drop"
			break
		}
		o.Arg = int64(cs[r.Intn(len(cs))])
		if o.Str == "errafter" && o.Key != 0 && o.Key != 19 {
			o.Str = "err"
		} else if o.Str == "errafter" {
			o.Arg = 7
		}
	}
	g.P.Add(o)
}

// Net adds n network faults on the given requests.
func (g *Gen) Net(n int, keys []int) {
	for ; n > 0; n-- {
		switch g.R.Intn(6) {
		case 0:
			g.P.Add(&core.Op{At: g.at(), Kind: "cut", M: g.node(), Broker: g.broker(), Dur: g.ms(50, 500, 3000, 9000)})
		case 1:
			g.P.Add(&core.Op{At: g.at(), Kind: "reset", M: g.node(), Broker: g.broker()})
		case 2:
			g.P.Add(&core.Op{At: g.at(), Kind: "refuse", M: g.node(), N: g.R.Range(1, 5)})
		default:
			g.Rule([]string{"drop", "lost", "lost", "delay", "delayresp", "blackhole", "void"}, keys)
		}
	}
}

// Errs adds n error answers.
func (g *Gen) Errs(n int, keys []int) {
	for ; n > 0; n-- {
		g.Rule([]string{"err", "err", "errafter"}, keys)
		if o := g.P.Ops[len(g.P.Ops)-1]; o.Key == 1 && g.R.P(0.5) {
			o.Str, o.Arg = "parterr", int64(g.R.Pick(29, 56, -1, 1000, 1000))
		}
	}
}

// BrokerFaults adds n faults of brokers.
func (g *Gen) BrokerFaults(n int) {
	r := g.R
	for ; n > 0; n-- {
		switch r.Intn(4) {
		case 0:
			g.P.Add(&core.Op{At: g.at(), Kind: "stall", Broker: g.broker(), Dur: g.ms(100, 1000, 5000)})
		case 1:
			g.P.Add(&core.Op{At: g.at(), Kind: "leader", N: r.Intn(len(g.Topics)), Part: int32(r.Intn(g.Parts))})
		default:
			g.P.Add(&core.Op{At: g.at(), Kind: "bcrash", Broker: g.broker(), Dur: g.ms(100, 1000, 4000, 9000), Arg: g.ms(0, 200, 2000)})
		}
	}
}

// Env injects them.
type Env struct {
	R      *core.Run
	C      *simk.Cluster
	Node   func(i int) int32
	Topics []string
	over   bool
}

// Do executes an op of this package; it tells whether it was one.
func (e *Env) Do(op *core.Op) bool {
	if e.over {
		switch op.Kind {
		case "cut", "reset", "refuse", "bcrash", "stall", "leader", "rule":
			return true
		}
		return false
	}
	c := e.C
	switch op.Kind {
	case "cut":
		e.R.Fault("partition")
		n := e.Node(op.M)
		c.Cut(n, op.Broker)
		e.R.W.After(op.Dur*1000, func() { c.Heal(n, op.Broker) })
	case "reset":
		e.R.Fault("conn-reset")
		c.ResetConns(e.Node(op.M), op.Broker)
	case "refuse":
		e.R.Fault("dial-refused")
		c.RefuseDials(e.Node(op.M), op.N)
	case "bcrash":
		e.R.Fault("broker-crash")
		c.Crash(op.Broker, op.Arg*1000)
		e.R.W.After(op.Dur*1000, func() { c.Restart(op.Broker) })
	case "stall":
		e.R.Fault("broker-stall")
		c.Stall(op.Broker, op.Dur*1000)
	case "leader":
		e.R.Fault("leader-move")
		if t := e.Topics[op.N%len(e.Topics)]; c.Topic(t) != nil {
			c.MoveLeader(t, op.Part)
		}
	case "rule":
		node := int32(0)
		if op.M >= 0 {
			node = e.Node(op.M)
		}
		e.R.Fault("rpc-" + op.Str)
		c.AddRule(&simk.Rule{ID: op.ID, Node: node, Broker: op.Broker, Key: int16(op.Key), Skip: op.Skip, N: op.N, Kind: op.Str, Arg: op.Arg})
	default:
		return false
	}
	return true
}

// End stops all faults and heals what they left.
func (e *Env) End() {
	e.over = true
	e.R.W.Trace("---- faults end")
	e.C.ClearRules()
	e.C.HealAll()
	for _, b := range e.C.BrokerIDs() {
		e.C.Restart(b)
	}
}
