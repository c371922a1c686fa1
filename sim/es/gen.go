package es

import (
	"github.com/aws/go-kafka-event-source/streams"
	"verifsim/core"
	"verifsim/simk"
)

func init() { core.Scenarios["es"] = core.Scenario{Gen: Gen, Run: Run} }

// Gen makes a plan from a seed.
func Gen(profile string, seed uint64) *core.Plan {
	r := simk.NewRng(seed*7919 + simk.Hash64(profile))
	p := &core.Plan{Knobs: map[string]int64{}, Sched: core.DefaultSched(r)}
	g := &gen{r: r, p: p, prof: profile}
	g.knobs()
	g.members()
	g.events()
	g.faults()
	g.r = simk.NewRng(seed*6007 + simk.Hash64(profile) + 1)
	g.ways()
	if p.K("metrics") == 1 && g.r.P(0.5) {
		p.Set("emit", 1)
	}
	if g.r.P(0.5) {
		p.Set("fail_ij", int64(g.r.Range(1, 6)))
	}
	p.Sort()
	return p
}

type gen struct {
	r                     *simk.Rng
	p                     *core.Plan
	prof                  string
	end                   int64 // us
	m                     mix
	async, ij, load, slow bool
	bad                   float64
}

// profiles weights: chance of each family of features and faults.
type mix struct {
	net, broker, coord, crash, freeze, skew, stop, errs, fatal, async, ij, metrics, balance, boot, split, evtxn, load, compact, slow, stores, long, deep, simple, on, feed float64
	members, parts                                                                                                                                                         int
}

var profiles = map[string]mix{
	"basic":   {},
	"net":     {feed: 0.15, on: 0.2, net: 1, broker: 0.4, coord: 0.4, errs: 0.6, evtxn: 0.2, async: 0.2, members: 3},
	"broker":  {net: 0.3, broker: 1, coord: 0.7, errs: 0.4, split: 0.2, members: 3},
	"crash":   {feed: 0.15, on: 0.5, crash: 1, net: 0.2, broker: 0.2, compact: 0.3, stores: 0.7, async: 0.2, members: 4},
	"pause":   {freeze: 1, skew: 0.4, net: 0.2, crash: 0.2, members: 3},
	"rebal":   {feed: 0.15, on: 0.5, stop: 1, crash: 0.4, members: 6, parts: 8, stores: 0.3, ij: 0.2},
	"stop":    {feed: 0.15, on: 0.5, stop: 1, net: 0.3, crash: 0.2, ij: 0.5, async: 0.5, metrics: 0.3, load: 0.4, members: 3},
	"txn":     {feed: 0.3, on: 0.2, fatal: 1, errs: 0.5, net: 0.3, crash: 0.1, async: 0.2, members: 3},
	"async":   {feed: 0.2, on: 0.2, async: 1, stop: 0.3, net: 0.2, crash: 0.2, ij: 0.3, members: 3},
	"ij":      {feed: 0.2, on: 0.6, ij: 1, stop: 0.4, crash: 0.2, net: 0.2, async: 0.3, load: 0.3, members: 3},
	"metrics": {metrics: 1, stop: 0.4, crash: 0.2, load: 0.3, net: 0.2, members: 3},
	"balance": {balance: 1, stop: 0.7, crash: 0.4, net: 0.2, async: 0.2, members: 4, parts: 6},
	"boot":    {on: 0.3, boot: 1, net: 0.5, broker: 0.4, errs: 0.4, split: 0.4, stop: 0.2, members: 4},
	"load":    {feed: 0.3, load: 1, slow: 0.6, stop: 0.3, net: 0.2, metrics: 0.2, async: 0.3, ij: 0.3, members: 3},
	"store":   {on: 0.3, simple: 1, crash: 0.5, stop: 0.6, net: 0.3, errs: 0.2, compact: 0.6, stores: 0.4, async: 0.2, evtxn: 0.1, members: 4},
	"pool":    {feed: 1, on: 0.1, net: 0.1, stop: 0.1, async: 0.25, ij: 0.1, members: 2, parts: 2},
	"long":    {long: 1, net: 0.1, async: 0.2, stop: 0.2, members: 2},
	"deep":    {deep: 1, async: 1, stop: 0.2, net: 0.1, ij: 0.2, members: 2, parts: 2},
	"mix": {feed: 0.2, on: 0.4, net: 0.4, broker: 0.25, coord: 0.3, crash: 0.3, freeze: 0.15, skew: 0.1, stop: 0.4, errs: 0.4, fatal: 0.15, async: 0.35, ij: 0.35,
		metrics: 0.25, balance: 0.1, boot: 0.1, split: 0.15, evtxn: 0.2, load: 0.25, compact: 0.2, slow: 0.2, stores: 0.3, members: 4, parts: 6},
}

func (g *gen) on(p float64) bool { return p > 0 && g.r.P(p) }

func (g *gen) knobs() {
	r, p := g.r, g.p
	m, ok := profiles[g.prof]
	if !ok {
		panic("no profile " + g.prof)
	}
	g.m = m
	set := p.Set
	set("brokers", int64(r.Range(1, 3)))
	np := 4
	if m.parts > 0 {
		np = m.parts
	}
	set("parts", int64(r.Range(1, np)))
	set("dparts", int64(r.Range(1, 3)))
	nm := 3
	if m.members > 0 {
		nm = m.members
	}
	set("members", int64(r.Range(1, nm)))
	if g.prof == "rebal" || g.prof == "balance" || g.prof == "boot" {
		set("members", int64(r.Range(2, nm)))
	}
	set("clparts", int64(r.Range(1, 3)))
	pool := r.Range(1, 4)
	set("pool", int64(pool))
	set("pending", int64(r.Range(1, pool)))
	mb := r.Pick(1, 2, 3, 5, 10, 100)
	set("maxbatch", int64(mb))
	set("target", int64(r.Range(1, mb)))
	set("batch_delay", int64(r.Pick(1000, 5000, 10000, 50000)))
	set("lat_min", int64(r.Pick(20, 100, 500)))
	set("lat_max", int64(r.Pick(600, 2000, 5000)))
	set("marker_min", 100)
	set("marker_max", int64(r.Pick(1000, 5000, 40000)))
	set("join_delay", int64(r.Pick(0, 20000, 300000)))
	set("fetch_batches", int64(r.Pick(0, 0, 1, 3)))
	set("deser", 1)
	set("txn_handler", 1)
	set("probe", 1)
	g.end = int64(r.Pick(8, 12, 12, 20, 30)) * 1e6
	if g.prof == "basic" {
		g.end = 12e6
	}
	if g.prof == "pool" {
		set("pool", int64(r.Range(2, 4)))
		set("pending", int64(r.Range(1, 3)))
		set("batch_delay", int64(r.Pick(1000, 2000, 5000)))
		set("lat_min", int64(r.Pick(20, 100)))
		set("lat_max", int64(r.Pick(300, 600, 2000)))
		set("marker_max", int64(r.Pick(200, 1000)))
	}
	if m.long > 0 {
		g.end = int64(r.Pick(45, 50, 60)) * 1e6
		set("pool", int64(r.Range(2, 4)))
	}
	set("fault_end", g.end)
	if g.on(0.3) && g.prof != "basic" {
		set("meta_lag", int64(r.Pick(1000, 50000, 500000)))
	}
	if g.on(m.split) {
		set("split", 1)
	}
	if g.on(m.boot) {
		set("bootstrap", 1)
	}
	if g.on(m.async) {
		g.async = true
		set("async", 1)
		set("as_conc", int64(r.Range(1, 4)))
		set("as_depth", int64(r.Pick(1, 1, 2, 10)))
		set("as_keys", int64(r.Pick(1, 2, 3, 100)))
		set("ab_max", int64(r.Pick(1, 2, 5)))
		set("ab_conc", int64(r.Range(1, 3)))
		set("ab_delay", int64(r.Pick(1000, 5000, 20000)))
	}
	if m.deep > 0 { // many more events at once than limits admit
		set("maxbatch", int64(r.Pick(100, 150, 200, 300)))
		set("target", int64(r.Range(1, 100)))
		set("as_depth", int64(r.Pick(20, 100, 200, 1000)))
		set("as_keys", int64(r.Range(1, 4)))
	}
	if g.on(m.ij) {
		g.ij = true
		if r.P(0.7) {
			every := r.Pick(20000, 100000, 300000, 1000000)
			set("ij_every", int64(every))
			set("ij_jitter", int64(r.Pick(0, every/10, every/2)))
			set("ij_async", int64(r.Intn(2)))
		}
		set("ij_emit", int64(r.Intn(2)))
	}
	if g.on(m.metrics) {
		set("metrics", int64(r.Range(1, 3)))
	} else if m.metrics > 0 || r.P(0.2) {
		set("metrics", 1)
	}
	if g.on(m.balance) {
		set("balance", int64(r.Range(1, 4)))
	}
	if g.on(m.stores) && r.P(0.4) {
		set("store_delay", int64(r.Pick(10, 200, 2000)))
	}
	if g.on(m.stores) && r.P(0.2) {
		set("store_err", int64(r.Pick(1, 3, 10)))
	}
	if g.on(m.simple) {
		set("simple", int64(r.Range(1, 5)))
	}
	if r.P(0.15) && g.prof != "basic" {
		set("commit_offsets", 1)
	}
	if g.on(m.stop) {
		set("end_stop", int64(r.Intn(2)))
		set("stop_gap", int64(r.Pick(0, 0, 1000, 300000, 2000000)))
	}
	if g.on(m.fatal) && r.P(0.3) {
		set("txn_policy", 1)
	}
	if r.P(0.3) && g.prof != "basic" {
		set("txn_handler", 0)
	}
}

// ways chooses how processes wait for their end.
func (g *gen) ways() {
	r := g.r
	if x := r.Intn(100); x < 7 && g.prof != "pool" && g.prof != "deep" && g.prof != "long" {
		for k, v := range map[string]int64{"eos_default": 1, "pool": streams.DefaultPoolSize, "pending": streams.DefaultPendingTxnCount, "target": streams.DefaultTargetBatchSize,
			"maxbatch": streams.DefaultMaxBatchSize, "batch_delay": streams.DefaultBatchDelay.Microseconds()} {
			g.p.Knobs[k] = v
		}
	}
	if g.p.K("balance") > 0 && r.P(0.4) {
		g.p.Knobs["balance"] = 5
	}
	if x := r.Intn(100); x < 12 {
		g.p.Knobs["migrate"] = int64(r.Range(1, 7))
	}
	if g.p.K("commit_offsets") == 0 && r.P(0.1) {
		g.p.Knobs["commit_offsets"] = 1
	}
	if (g.m.stop == 0 && g.m.on == 0) || r.P(0.5) {
		return
	}
	g.p.Knobs["via"] = int64(r.Range(1, viaN-1))
	g.p.Knobs["via_close"] = int64(r.Intn(2))
	for i := r.Intn(4); i > 0; i-- {
		g.p.Add(&core.Op{At: g.at(), Kind: "usr1", M: g.member()})
	}
}

func (g *gen) members() {
	for i := 0; i < int(g.p.K("members")); i++ {
		at := int64(g.r.Intn(3e5))
		if i > 0 && g.r.P(0.5) && !(g.prof == "boot" && g.r.P(0.6)) {
			at = int64(g.r.Intn(int(g.end)))
		}
		g.p.Add(&core.Op{At: at, Kind: "start", M: i, Dur: 500e3})
	}
}

func (g *gen) ev() *core.Ev {
	r := g.r
	e := &core.Ev{Type: []string{"A", "B", "A", "", "X"}[r.Intn(5)], Key: string(rune('a' + r.Intn(4))), Store: r.Pick(0, 1, 1, 2)}
	if g.p.K("simple") > 0 && r.P(0.5) {
		e.Store = r.Pick(1, 1, 2)
	}
	for i := r.Intn(4); i > 0; i-- {
		e.Outs = append(e.Outs, r.Range(-1, int(g.p.K("dparts"))-1))
	}
	if r.P(0.05 + g.bad) {
		e.Type = "bad"
	}
	if r.P(0.2) {
		e.Delay = int64(r.Pick(100, 1000, 10000, 50000))
		if g.slow && r.P(0.3) {
			e.Delay = int64(r.Pick(200000, 1000000))
		}
	}
	if g.async && e.Type != "bad" {
		e.Mode = r.Pick(0, 1, 1, 2, 3, 4)
		if e.Mode == 0 && e.Delay > 50000 {
			e.Delay = 50000
		}
	}
	if g.load && r.P(0.1) {
		e.Size = r.Pick(100, 5000, 100000)
	}
	return e
}

func (g *gen) events() {
	r := g.r
	g.load, g.slow = g.on(g.m.load), g.on(g.m.slow)
	if r.P(0.2) {
		g.bad = 0.3
	}
	n := r.Range(40, 150)
	if g.load {
		n = r.Range(150, 500)
	}
	if g.slow {
		n = r.Range(20, 80)
	}
	if g.m.deep > 0 {
		n = r.Range(500, 1500)
	}
	if g.on(g.m.feed) { // events which arrive when a transaction has ended, or as others are handled
		for i := r.Range(1, 2); i > 0; i-- {
			o := &core.Op{At: int64(r.Intn(500000)), Kind: "on", Str: "commit:feed", M: -1, N: r.Pick(1, 2, 3, 5), Arg: int64(r.Pick(0, 300, 1500, 5000, 30000))}
			if r.P(0.25) {
				o.Str, o.N = "handle:feed", 1
			}
			for k := r.Range(40, 200); k > 0; k-- {
				e := g.ev()
				if g.prof == "pool" {
					if e.Delay > 1000 {
						e.Delay = int64(r.Pick(50, 300, 1000, 4000))
					}
					if len(e.Outs) < 2 {
						e.Outs = append(e.Outs, 0)
					}
				}
				o.Evs = append(o.Evs, e)
			}
			g.p.Add(o)
		}
		if g.prof == "pool" {
			n /= 3
		}
	}
	txns := g.on(g.m.evtxn)
	t := int64(0)
	for n > 0 {
		t += int64(r.Intn(int(g.end) / 40))
		if t > g.end+8e6 {
			t = int64(r.Intn(int(g.end)))
		}
		k := r.Pick(1, 1, 2, 5, 12)
		if g.load {
			k = r.Pick(1, 5, 20, 60)
		}
		if g.m.deep > 0 {
			k = r.Pick(60, 200, 500)
		}
		op := &core.Op{At: t, Kind: "ev", Part: int32(r.Intn(int(g.p.K("parts"))))}
		mode, keys := 0, 0
		if g.m.deep > 0 { // most of a burst works the same way
			mode, keys = r.Pick(0, 1, 1, 2, 3, 4), r.Range(1, 4)
		}
		for i := 0; i < k; i++ {
			e := g.ev()
			if g.m.deep > 0 {
				if r.P(0.998) && e.Type != "bad" {
					e.Mode, e.Key = mode, string(rune('a'+r.Intn(keys)))
				}
				if e.Delay > 1000 {
					e.Delay = int64(r.Pick(100, 1000, 5000))
				}
				e.Outs = e.Outs[:len(e.Outs)/2]
			}
			op.Evs = append(op.Evs, e)
		}
		if txns && r.P(0.3) {
			op.Kind, op.Dur = "evtxn", int64(r.Pick(1000, 50000, 1000000))
			if r.P(0.4) {
				op.N = 1
			}
		}
		n -= k
		g.p.Add(op)
	}
}

// at picks a moment in the fault phase.
func (g *gen) at() int64 { return int64(g.r.Intn(int(g.end)-300000)) + 200000 }

func (g *gen) member() int { return g.r.Intn(int(g.p.K("members"))) }

func (g *gen) str() string {
	if g.p.K("split") == 1 && g.r.P(0.5) {
		return "st"
	}
	return ""
}

func (g *gen) anyBroker() int32 { return int32(g.r.Range(1, int(g.p.K("brokers")))) }

// rule makes one fault on requests of one kind.
func (g *gen) rule(kinds []string, keys []int) *core.Op {
	r := g.r
	o := &core.Op{At: g.at(), Kind: "rule", M: g.member(), Broker: -1, Key: keys[r.Intn(len(keys))], Str: kinds[r.Intn(len(kinds))], N: r.Pick(1, 1, 1, 2, 4)}
	if r.P(0.3) {
		o.M = -1
	}
	if r.P(0.3) {
		o.Broker = g.anyBroker()
	}
	o.Skip = r.Pick(0, 0, 0, 1, 2, 5, 20)
	switch o.Str {
	case "delay", "delayresp":
		o.Arg = int64(r.Pick(5, 50, 500, 2000, 7000)) * 1e6
	case "err", "errafter":
		codes := map[int][]int{0: {6, 3, 7, 19, 20}, 1: {6, 3}, 2: {6, 3}, 3: {5}, 8: {14, 15, 16}, 9: {14, 15, 16}, 10: {15}, 11: {14, 15, 16}, 12: {16, 27, 25, 22},
			14: {16, 27}, 22: {14, 15, 16, 51}, 24: {14, 15, 16, 51}, 26: {14, 15, 16, 51}}[o.Key]
		if len(codes) == 0 {
			o.Str = "drop"
			break
		}
		o.Arg = int64(codes[r.Intn(len(codes))])
		if o.Str == "errafter" && o.Key != 0 && o.Key != 26 && o.Key != 24 {
			o.Str = "err"
		}
		if o.Str == "errafter" {
			o.Arg = map[int]int64{0: 7, 24: 51, 26: 51}[o.Key]
		}
	}
	return o
}

func (g *gen) faults() {
	r, m := g.r, g.m
	all := []int{0, 0, 1, 3, 8, 9, 10, 11, 12, 14, 22, 24, 24, 26, 26}
	if g.on(m.net) {
		for i := r.Range(1, 6); i > 0; i-- {
			switch r.Intn(6) {
			case 0:
				g.p.Add(&core.Op{At: g.at(), Kind: "cut", M: g.member(), Broker: g.anyBroker(), Dur: int64(r.Pick(50, 500, 3000, 9000)) * 1000, Str: g.str()})
			case 1:
				g.p.Add(&core.Op{At: g.at(), Kind: "reset", M: g.member(), Broker: g.anyBroker(), Str: g.str()})
			case 2:
				g.p.Add(&core.Op{At: g.at(), Kind: "refuse", M: g.member(), N: r.Range(1, 5), Str: g.str()})
			default:
				g.p.Add(g.rule([]string{"drop", "lost", "lost", "delay", "delayresp", "blackhole", "void"}, all))
			}
		}
	}
	if g.on(m.errs) {
		for i := r.Range(1, 5); i > 0; i-- {
			o := g.rule([]string{"err", "err", "errafter"}, all)
			if r.P(0.3) {
				o.Key, o.Str, o.Arg, o.N = 1, "parterr", int64(r.Pick(29, 56, -1, 1000, 1000)), r.Pick(1, 1, 2, 5)
			}
			g.p.Add(o)
		}
	}
	if g.on(m.fatal) {
		for i := r.Range(1, 3); i > 0; i-- {
			o := g.rule([]string{"err"}, []int{0, 24, 26, 26})
			o.N = 1
			o.Arg = map[int]int64{0: int64(r.Pick(10, 87, 29)), 24: int64(r.Pick(47, 48, 53, 90)), 26: int64(r.Pick(47, 48, 53, 90))}[o.Key]
			o.Skip = r.Pick(0, 1, 3, 10, 30)
			g.p.Add(o)
		}
	}
	if g.on(m.broker) {
		for i := r.Range(1, 3); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				g.p.Add(&core.Op{At: g.at(), Kind: "stall", Broker: g.anyBroker(), Dur: int64(r.Pick(100, 1000, 5000)) * 1000, Str: g.str()})
			case 1:
				g.p.Add(&core.Op{At: g.at(), Kind: "leader", N: r.Intn(4), Part: int32(r.Intn(3))})
			default:
				g.p.Add(&core.Op{At: g.at(), Kind: "bcrash", Broker: g.anyBroker(), Dur: int64(r.Pick(100, 1000, 4000, 9000)) * 1000, Arg: int64(r.Pick(0, 200, 2000)) * 1000, Str: g.str()})
			}
		}
	}
	if g.on(m.coord) {
		for i := r.Range(1, 3); i > 0; i-- {
			g.p.Add(&core.Op{At: g.at(), Kind: []string{"gcoord", "tcoord"}[r.Intn(2)]})
		}
	}
	if m.long > 0 { // faults that last longer than any timeout, over as many requests as there are
		for i := r.Range(1, 3); i > 0; i-- {
			if r.P(0.1) {
				g.p.Add(&core.Op{At: int64(r.Intn(10e6)), Kind: "cut", M: g.member(), Broker: g.anyBroker(), Dur: int64(r.Pick(20, 29, 31, 35, 45)) * 1e6, Str: g.str()})
				continue
			}
			o := g.rule([]string{"void", "void", "drop", "blackhole", "lost", "delayresp"}, []int{26, 26, 26, 26, 24, 22, 0, 0, 10, 3, -1})
			if o.Str == "drop" && o.Key < 0 {
				o.Str = "blackhole"
			}
			o.At, o.N, o.Dur, o.Broker = int64(r.Intn(12e6)), 100000, int64(r.Pick(20, 29, 31, 35, 45))*1e6, -1
			if o.Str == "delayresp" {
				o.Arg = int64(r.Pick(2, 8, 28, 32)) * 1e9
			}
			if r.P(0.8) || o.Key < 0 {
				o.Ints = []int64{1} // one producer only
			}
			g.p.Add(o)
		}
	}
	freezes := g.p.K("txn_policy") == 1
	if g.on(m.crash) {
		freezes = true
		for i := r.Range(1, 4); i > 0; i-- {
			g.p.Add(&core.Op{At: g.at(), Kind: "crash", M: g.member(), Dur: int64(r.Pick(1, 100, 1000, 8000)) * 1000})
		}
	}
	if g.on(m.freeze) {
		freezes = true
		for i := r.Range(1, 3); i > 0; i-- {
			g.p.Add(&core.Op{At: g.at(), Kind: "freeze", M: g.member(), Dur: int64(r.Pick(50, 1000, 4000, 7000, 12000)) * 1000})
		}
	}
	if g.on(m.skew) {
		for i := r.Range(1, 2); i > 0; i-- {
			g.p.Add(&core.Op{At: g.at(), Kind: "skew", M: g.member(), Arg: int64(r.Pick(-3600, -5, -1, 1, 5, 60, 86400)) * 1e6})
		}
	}
	if g.on(m.stop) {
		n := r.Range(1, 4)
		if g.prof == "rebal" {
			n = r.Range(2, 8)
		}
		for ; n > 0; n-- {
			o := &core.Op{At: g.at(), Kind: []string{"stop", "stop", "stop", "stopnow"}[r.Intn(4)], M: g.member(), Dur: int64(r.Pick(1, 300, 2000, 10000)) * 1000}
			if r.P(0.15) {
				o.Dur = 0
			}
			g.p.Add(o)
			for r.P(0.3) { // again, meanwhile
				o2 := *o
				o2.At += int64(r.Pick(0, 10, 1000, 100000, 2000000))
				o2.Kind = []string{"stop", "stopnow"}[r.Intn(2)]
				g.p.Add(&o2)
			}
		}
	}
	if g.ij {
		for i := r.Range(3, 20); i > 0; i-- {
			o := &core.Op{At: g.at(), Kind: "interject", M: g.member(), Part: int32(r.Intn(int(g.p.K("parts")))), Arg: int64(r.Intn(4)), Dur: int64(r.Pick(0, 0, 100, 20000))}
			if r.P(0.15) {
				o.Kind, o.N = "interjectall", r.Intn(2)
			}
			g.p.Add(o)
			for r.P(0.3) {
				o2 := *o
				o2.At += int64(r.Pick(0, 100, 3000))
				g.p.Add(&o2)
			}
		}
	}
	if g.on(m.compact) {
		for i := r.Range(1, 4); i > 0; i-- {
			g.p.Add(&core.Op{At: g.at(), Kind: "compact", N: r.Intn(2), Key: r.Pick(0, 1, 5)})
		}
	}
	if g.p.K("simple") > 0 {
		for i := r.Intn(5); i > 0; i-- {
			g.p.Add(&core.Op{At: g.at(), Kind: "poison", Part: int32(r.Intn(int(g.p.K("parts")))), N: r.Intn(12)})
		}
	}
	if g.on(m.on) { // actions at chosen moments inside a member
		evs := []string{"store", "store", "assigned", "assigned", "activated", "willrevoke", "revoked", "generation", "commit", "handle"}
		if g.p.K("store_delay") > 0 || m.crash > 0.4 {
			evs = append(evs, "change", "change", "change")
		}
		acts := []string{"stop", "stop", "stopnow", "cut", "reset"}
		if m.crash > 0 {
			acts = append(acts, "crash", "crash")
			freezes = true
		}
		if m.ij > 0 {
			acts = append(acts, "interject", "interject", "interject", "interject", "interjectall")
		}
		for i := r.Range(1, 5); i > 0; i-- {
			ev, act := evs[r.Intn(len(evs))], acts[r.Intn(len(acts))]
			o := &core.Op{At: int64(r.Intn(int(g.end) / 2)), Kind: "on", Str: ev + ":" + act, M: r.Range(-1, int(g.p.K("members"))-1), Skip: r.Pick(0, 0, 0, 1, 2, 4), Arg: int64(r.Pick(0, 0, 1, 30, 1000, 20000)), N: r.Intn(4)}
			if ev == "handle" || ev == "change" || ev == "commit" {
				o.Skip = r.Pick(0, 1, 3, 10, 30)
			}
			if r.P(0.15) {
				o.Key = 1 // done to another member
			}
			switch act {
			case "cut":
				o.Dur, o.Broker = int64(r.Pick(50, 500, 3000, 9000))*1000, g.anyBroker()
			case "reset":
				o.Broker = g.anyBroker()
			case "interject", "interjectall":
				o.Dur = int64(r.Pick(0, 0, 100, 20000))
			default:
				o.Dur = int64(r.Pick(1, 100, 1000, 8000)) * 1000
			}
			g.p.Add(o)
		}
		if r.P(0.3) {
			g.p.Set("cb_delay", int64(r.Pick(10, 1000, 20000, 300000)))
		}
		if m.ij > 0 && r.P(0.4) && g.p.K("store_delay") == 0 {
			g.p.Set("store_delay", int64(r.Pick(200, 2000, 20000)))
		}
	}
	if freezes {
		g.p.Sched.NoGlobal = true
	}
}
