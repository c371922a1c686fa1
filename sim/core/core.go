// Package core holds what all simulation scenarios share: the plan (one seed is one plan is one
// execution), the result, and the command line.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"verifsim/simk"
)

// Op is one entry of a plan's timeline: a stimulus or a fault.
type Op struct {
	ID     int     `json:"id"`
	At     int64   `json:"at"` // us of simulated time
	Kind   string  `json:"kind"`
	M      int     `json:"m,omitempty"` // member slot
	Broker int32   `json:"broker,omitempty"`
	Part   int32   `json:"part,omitempty"`
	N      int     `json:"n,omitempty"`
	Dur    int64   `json:"dur,omitempty"` // us
	Str    string  `json:"str,omitempty"`
	Key    int     `json:"key,omitempty"`
	Skip   int     `json:"skip,omitempty"`
	Arg    int64   `json:"arg,omitempty"`
	Ev     *Ev     `json:"ev,omitempty"`
	Evs    []*Ev   `json:"evs,omitempty"`
	Ints   []int64 `json:"ints,omitempty"`
}

// Ev describes one source event.
type Ev struct {
	Type  string `json:"t,omitempty"` // A, B, X (unregistered), "" (no type header), bad (A that does not decode)
	Key   string `json:"k,omitempty"`
	Outs  []int  `json:"o,omitempty"` // destination partition of each output; -1: by key
	Mode  int    `json:"m,omitempty"`
	Delay int64  `json:"d,omitempty"` // us the handler takes
	Store int    `json:"s,omitempty"` // 0 none 1 put 2 delete
	Size  int    `json:"z,omitempty"` // extra payload bytes
}

// Sched configures the scheduler.
type Sched struct {
	Pick      uint32      `json:"pick"`
	Yield     uint32      `json:"yield"`
	Delay     uint32      `json:"delay"`
	MaxDelay  int64       `json:"max_delay"`
	StepCost  int64       `json:"step_cost"`
	MaxSteps  uint64      `json:"max_steps"`
	NoGlobal  bool        `json:"no_global,omitempty"`
	HotMod    uint64      `json:"hot_mod,omitempty"` // one in so many yield points is hot
	HotSeed   uint64      `json:"hot_seed,omitempty"`
	HotProb   uint32      `json:"hot_prob,omitempty"`
	HotDelay  int64       `json:"hot_delay,omitempty"`
	HotMax    uint64      `json:"hot_max,omitempty"`
	HotMask   uint64      `json:"hot_mask,omitempty"` // hot are files, functions or statements
	Intervals [][2]uint64 `json:"intervals"`          // null: the seeded choice everywhere
}

type Plan struct {
	Scenario string           `json:"scenario"`
	Profile  string           `json:"profile"`
	Seed     uint64           `json:"seed"`
	Sched    Sched            `json:"sched"`
	Knobs    map[string]int64 `json:"knobs"`
	Ops      []*Op            `json:"ops"`
}

func (p *Plan) K(name string) int64         { return p.Knobs[name] }
func (p *Plan) Set(name string, v int64)    { p.Knobs[name] = v }
func (p *Plan) D(name string) time.Duration { return time.Duration(p.Knobs[name]) * time.Microsecond }
func (p *Plan) Add(o *Op) *Op {
	o.ID = len(p.Ops) + 1
	p.Ops = append(p.Ops, o)
	return o
}
func (p *Plan) Sort() {
	sort.SliceStable(p.Ops, func(i, j int) bool { return p.Ops[i].At < p.Ops[j].At })
}

// DefaultSched picks scheduler settings for a seed.
func DefaultSched(r *simk.Rng) Sched {
	s := Sched{StepCost: 200, MaxSteps: 30e6, MaxDelay: 2e6}
	switch r.Intn(6) {
	case 0: // FIFO, cooperative
	case 1:
		s.Pick, s.Yield = 4000, 600
	case 2:
		s.Pick, s.Yield, s.Delay = 16000, 2000, 6000
	case 3:
		s.Pick, s.Yield, s.Delay = 40000, 6000, 3000
	case 4:
		s.Pick, s.Yield, s.Delay, s.MaxDelay = 2000, 300, 60000, 20e6
	case 5:
		s.Pick, s.Yield, s.Delay, s.MaxDelay = 30000, 12000, 12000, 300e3
	}
	if r.Intn(2) == 0 {
		switch r.Intn(3) {
		case 0: // statements
			s.HotMask, s.HotMod = ^uint64(0), []uint64{40, 120, 400}[r.Intn(3)]
			s.HotProb = []uint32{6000, 20000, 40000}[r.Intn(3)]
		case 1: // functions
			s.HotMask, s.HotMod = uint64(0xffffffffff000000), []uint64{20, 50, 100}[r.Intn(3)]
			s.HotProb = []uint32{2000, 6000, 20000}[r.Intn(3)]
		case 2: // files
			s.HotMask, s.HotMod = uint64(0xffff000000000000), []uint64{6, 12, 24}[r.Intn(3)]
			s.HotProb = []uint32{500, 2000, 6000}[r.Intn(3)]
		}
		s.HotSeed = r.U64()
		s.HotDelay = []int64{300e3, 3e6, 20e6}[r.Intn(3)]
		s.HotMax = []uint64{5, 20, 100}[r.Intn(3)]
	}
	return s
}

type Violation struct {
	Prop   string `json:"prop"`
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	At     int64  `json:"at_us"`
}

type Result struct {
	Scenario   string           `json:"scenario"`
	Profile    string           `json:"profile"`
	Seed       uint64           `json:"seed"`
	Violations []Violation      `json:"violations"`
	Hash       string           `json:"hash"`
	SimNs      int64            `json:"sim_ns"`
	Steps      uint64           `json:"steps"`
	Decisions  uint64           `json:"decisions"`
	Deviations uint64           `json:"deviations"`
	Yields     uint64           `json:"yields"`
	SchedHash  string           `json:"sched_hash"`
	Overrun    bool             `json:"overrun,omitempty"`
	Inconcl    string           `json:"inconclusive,omitempty"`
	Faults     map[string]int   `json:"faults"`
	Counts     map[string]int64 `json:"counts"`
	Notes      []string         `json:"notes,omitempty"`
	Props      map[string]int64 `json:"props"` // per property: how many obligations were checked
}

// Run is the state of one execution.
type Run struct {
	Plan *Plan
	W    *simk.World
	Rng  *simk.Rng
	Res  *Result
	seen map[string]int
}

// V records a violation. At most a few of one signature are kept.
func (r *Run) V(prop, sig, format string, args ...any) {
	simk.Atomic(func() {
		k := prop + "/" + sig
		r.seen[k]++
		if r.seen[k] > 3 {
			return
		}
		d := fmt.Sprintf(format, args...)
		r.Res.Violations = append(r.Res.Violations, Violation{prop, sig, d, r.W.Now() / 1000})
		r.W.Trace("VIOLATION %s %s: %s", prop, sig, d)
	})
}

// OK counts checked obligations of a property.
func (r *Run) OK(prop string) { r.Res.Props[prop]++ }

func (r *Run) Count(k string, n int64) { r.Res.Counts[k] += n }
func (r *Run) Fault(k string)          { r.Res.Faults[k]++ }

// Scenario is one family of simulated runs.
type Scenario struct {
	Gen func(profile string, seed uint64) *Plan
	Run func(*Run)
}

var Scenarios = map[string]Scenario{}

type replay struct {
	Plan *Plan `json:"plan"`
}

// warm fills the process-wide caches of encoding/json the same way, wherever the plan comes from.
func warm(p *Plan) {
	b, _ := json.Marshal(replay{p})
	json.Unmarshal(b, &replay{})
	b, _ = json.Marshal(p)
	json.Unmarshal(b, &Plan{})
}

func Main() {
	gen := flag.String("gen", "", "scenario/profile to generate")
	seed := flag.Uint64("seed", 1, "seed")
	plan := flag.String("plan", "", "plan or replay file")
	out := flag.String("o", "", "result file")
	savePlan := flag.String("saveplan", "", "write the plan here")
	trace := flag.String("trace", "", "write the event trace here")
	only := flag.Bool("planonly", false, "do not run")
	flag.Parse()
	var p *Plan
	if *plan != "" {
		b, err := os.ReadFile(*plan)
		if err != nil {
			die(err)
		}
		var rp replay
		if json.Unmarshal(b, &rp) == nil && rp.Plan != nil {
			p = rp.Plan
		} else {
			p = &Plan{}
			if err := json.Unmarshal(b, p); err != nil {
				die(err)
			}
		}
	} else {
		sc, prof, _ := strings.Cut(*gen, "/")
		s, ok := Scenarios[sc]
		if !ok {
			die(fmt.Errorf("no scenario %q", sc))
		}
		p = s.Gen(prof, *seed)
		p.Scenario, p.Profile, p.Seed = sc, prof, *seed
	}
	warm(p)
	if *savePlan != "" {
		b, _ := json.Marshal(p)
		if err := os.WriteFile(*savePlan, b, 0644); err != nil {
			die(err)
		}
	}
	if *only {
		os.Exit(0)
	}
	if _, ok := Scenarios[p.Scenario]; !ok {
		die(fmt.Errorf("no scenario %q", p.Scenario))
	}
	// process-wide generators are fixed by the runtime overlay; move them to a seed-dependent point
	for i := uint64(0); i < p.Seed%997; i++ {
		rand.Int63()
	}
	r := &Run{Plan: p, Rng: simk.NewRng(p.Seed ^ 0x5eed), seen: map[string]int{}}
	r.Res = &Result{Scenario: p.Scenario, Profile: p.Profile, Seed: p.Seed, Violations: []Violation{}, Faults: map[string]int{}, Counts: map[string]int64{}, Props: map[string]int64{}}
	c := runtime.SimConfig{Seed: p.Seed, StepCost: p.Sched.StepCost, PickProb: p.Sched.Pick, YieldProb: p.Sched.Yield,
		DelayProb: p.Sched.Delay, MaxDelay: p.Sched.MaxDelay, MaxSteps: p.Sched.MaxSteps, NoGlobal: p.Sched.NoGlobal,
		HotMod: p.Sched.HotMod, HotSeed: p.Sched.HotSeed, HotProb: p.Sched.HotProb, HotDelay: p.Sched.HotDelay, HotMax: p.Sched.HotMax, HotMask: p.Sched.HotMask}
	if p.Sched.Intervals != nil {
		c.Intervals = []runtime.SimInterval{}
		for _, iv := range p.Sched.Intervals {
			c.Intervals = append(c.Intervals, runtime.SimInterval{From: iv[0], To: iv[1]})
		}
	}
	runtime.SimStart(c)
	go run(r, *trace, *out) // not on a stack that depends on where the plan came from
	select {}
}

func run(r *Run, trace, out string) {
	p := r.Plan
	s := Scenarios[p.Scenario]
	r.W = simk.NewWorld()
	r.W.Verbose = trace != ""
	r.W.Lines = make([]string, 0, 1<<20)
	if v := p.Knobs["dump_ms"]; v > 0 { // development aid: all stacks at one moment
		r.W.At(v*1e6, func() {
			b := make([]byte, 4<<20)
			os.WriteFile("/tmp/stacks.txt", b[:runtime.Stack(b, true)], 0644)
		})
	}
	s.Run(r)
	st := runtime.SimGetStats()
	h, n := r.W.TraceHash()
	r.Res.Hash = fmt.Sprintf("%016x-%d", h, n)
	r.Res.SchedHash = fmt.Sprintf("%016x", st.Hash)
	r.Res.SimNs, r.Res.Steps, r.Res.Decisions, r.Res.Deviations, r.Res.Yields, r.Res.Overrun = r.W.Now(), st.Steps, st.Decisions, st.Deviations, st.Yields, st.Overrun
	if trace != "" {
		os.WriteFile(trace, []byte(strings.Join(r.W.Lines, "\n")+"\n"), 0644)
	}
	b, _ := json.Marshal(r.Res)
	if out != "" {
		if err := os.WriteFile(out, b, 0644); err != nil {
			die(err)
		}
	} else {
		println(string(b))
	}
	os.Exit(0)
}

func die(err error) {
	println("error:", err.Error())
	os.Exit(2)
}

// Sleep lets simulated time pass (harness code only).
func Sleep(d time.Duration) { time.Sleep(d) }

// PanicText renders the frames of a captured panic.
func PanicText(p runtime.SimPanic) string {
	var b strings.Builder
	b.WriteString(p.Msg)
	fr := runtime.CallersFrames(p.Stack)
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "go-kafka-event-source") || strings.Contains(f.Function, "kgo") || strings.Contains(f.Function, "verifsim") {
			i := strings.LastIndexByte(f.Function, '/')
			fmt.Fprintf(&b, " < %s:%d", f.Function[i+1:], f.Line)
		}
		if !more {
			break
		}
	}
	return b.String()
}
