// Package mskc simulates applications on Amazon MSK (C20): clusters which are looked up with the real AWS
// SDK from a simulated control plane, with credentials from a provider that rotates, stalls and fails, and
// Kafka clients that log in to simulated brokers, which judge what is presented to them.
package mskc

import (
	"context"
	"crypto/tls"
	"fmt"
	"net"
	"runtime"
	"slices"
	"strings"
	"time"

	"verifsim/core"
	"verifsim/flt"
	"verifsim/simk"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/kafka"
	"github.com/aws/go-kafka-event-source/msk"
	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

func init() { core.Scenarios["msk"] = core.Scenario{Gen: gen, Run: run} }

func gen(profile string, seed uint64) *core.Plan {
	r := simk.NewRng(seed*6007 + simk.Hash64("msk/"+profile))
	p := &core.Plan{Knobs: map[string]int64{}, Sched: core.DefaultSched(r)}
	set := p.Set
	nb := r.Range(1, 4)
	set("brokers", int64(nb))
	set("lat_min", int64(r.Pick(20, 100, 500)))
	set("lat_max", int64(r.Pick(600, 2000, 5000, 50000)))
	mode := r.Pick(0, 1, 2, 3, 3, 3, 4, 5, 6, 6)
	if profile == "creds" {
		mode = r.Pick(3, 3, 6)
	}
	set("mode", int64(mode))
	set("modes", int64(r.Intn(128))|int64(1)<<mode)
	set("others", int64(r.Intn(64)))
	set("page", int64(r.Pick(0, 0, 1, 2)))
	set("procs", int64(r.Range(1, 3)))
	set("own_dial", int64(r.Intn(2)))
	set("override", int64(r.Pick(0, 0, 0, 1)))
	set("opt_fn", int64(r.Intn(2)))
	set("more_opts", int64(r.Pick(0, 0, 1, 2, 3)))
	set("few_opts", int64(r.Intn(2)))
	set("token", int64(r.Intn(2)))
	set("cache", int64(r.Intn(2)))
	set("prov_junk", int64(r.Intn(2)))
	set("prov_delay", int64(r.Pick(0, 0, 1000, 100000)))
	set("cred_life", int64(r.Pick(0, 10e6, 30e6, 300e6)))
	set("session", int64(r.Pick(0, 0, 4000, 8000, 20000)))
	if p.K("cache") == 0 {
		set("revoke", int64(r.Intn(2)))
	}
	end := r.Pick(10, 20, 40) * 1e6
	set("end", int64(end))
	at := func() int64 { return int64(r.Intn(end)) }
	procs := int(p.K("procs"))
	for i := r.Range(3, 10); i > 0; i-- {
		o := &core.Op{At: at(), M: r.Intn(procs), Kind: []string{"client", "client", "config"}[r.Intn(3)], N: r.Pick(1, 1, 2, 4)}
		if r.P(0.3) {
			o.At = 0
		}
		p.Add(o)
	}
	for i := r.Range(5, 30); i > 0; i-- {
		p.Add(&core.Op{At: at(), M: r.Intn(procs), Kind: "use", Key: r.Intn(8), N: r.Pick(1, 1, 3)})
	}
	for i := r.Intn(4); i > 0; i-- {
		p.Add(&core.Op{At: at(), M: r.Intn(procs), Kind: "close", Key: r.Intn(8)})
	}
	spell := func(kinds ...string) {
		o := &core.Op{At: at(), Kind: "spell", Str: kinds[r.Intn(len(kinds))], Dur: int64(r.Pick(50, 1000, 5000, 15000)) * 1000, N: r.Intn(3), Arg: int64(r.Pick(100, 1000, 8000)) * 1e6}
		if r.P(0.3) {
			o.At = 0
		}
		p.Add(o)
	}
	g := &flt.Gen{R: r, P: p, End: int64(end), Nodes: procs, Brokers: nb, Topics: []string{"t"}, Parts: 3}
	keys := []int{3, 18, 17, 17, 36, 36, 36, -1}
	control := func() {
		for i := r.Range(1, 5); i > 0; i-- {
			spell("awsdown", "aws500", "aws503", "aws429", "aws403", "awsjunk", "awsslow", "noarn", "empty", "nomode")
		}
		if r.P(0.3) {
			p.Add(&core.Op{At: at(), Kind: "create"})
		}
		if r.P(0.3) {
			p.Add(&core.Op{At: at(), Kind: "enable"})
		}
	}
	creds := func() {
		for i := r.Range(1, 5); i > 0; i-- {
			p.Add(&core.Op{At: at(), Kind: "rotate"})
		}
		for i := r.Range(0, 4); i > 0; i-- {
			spell("provfail", "provfail", "provslow")
		}
		for i := r.Range(0, 5); i > 0; i-- {
			p.Add(&core.Op{At: at(), Kind: "reset", M: r.Intn(procs), Broker: -1})
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		p.Add(&core.Op{At: at(), Kind: "grow"})
	}
	switch profile {
	case "calm":
	case "control":
		control()
	case "creds":
		creds()
	case "net":
		creds()
		g.Net(r.Range(1, 6), keys)
		g.BrokerFaults(r.Range(1, 3))
	default: // mix
		if r.P(0.6) {
			control()
		}
		if r.P(0.7) {
			creds()
		}
		if r.P(0.5) {
			g.Net(r.Range(1, 5), keys)
		}
		if r.P(0.3) {
			g.BrokerFaults(r.Range(1, 3))
		}
	}
	p.Sort()
	return p
}

type H struct {
	r       *core.Run
	p       *core.Plan
	c       *simk.Cluster
	base    int64
	mode    string
	exists  bool
	enabled bool
	shown   int // brokers in the bootstrap strings
	spells  map[string]*core.Op
	until   map[string]int64
	prov    *provider
	replies map[uint64][]*reply // by goroutine
	nHTTP   int
	salted  []byte
	procs   []*proc
	pending int
	final   bool
}

type proc struct {
	h       *H
	node    int32
	msk     *msk.MskCluster
	tls     *tls.Config
	good    map[string]bool // seed lists of calls which succeeded
	clients []*client
	nextID  int
	calling int
	asked   int
}

type client struct {
	k      *kgo.Client
	id     int
	closed bool
}

func (h *H) v(sig, f string, a ...any) { h.r.V("C20", sig, f, a...) }

func (h *H) on(kind string) bool {
	return h.until[kind] > h.r.W.Now()
}
func (h *H) spellArg(kind string) int64 { return h.spells[kind].Arg }
func (h *H) spellStr(kind string) string {
	return []string{"", "list", "boot"}[h.spells[kind].N%3]
}

var ports = map[string]int{"None": 9092, "MutualTLS": 9094, "SaslScram": 9096, "SaslIam": 9098, "PublicMutualTLS": 9194, "PublicSaslScram": 9196, "PublicSaslIam": 9198}

func host(mode string, id int32) string {
	pub := ""
	if strings.HasPrefix(mode, "Public") {
		pub = "-public"
	}
	return fmt.Sprintf("b-%d%s.orders.x1y2z3.c2.kafka.eu-west-1.amazonaws.com", id, pub)
}

// bootString is what the control plane says about a cluster's endpoints of a kind.
func (h *H) bootString(arn, mode string) (string, bool) {
	if arn != arnOf(clusterName) {
		return fmt.Sprintf("b-1.elsewhere.c2.kafka.eu-west-1.amazonaws.com:%d", ports[mode]), true
	}
	i := slices.Index(modes, mode)
	if h.p.K("modes")>>i&1 == 0 {
		return "", false
	}
	if mode == h.mode {
		if !h.enabled || h.on("nomode") {
			return "", false
		}
		if h.on("empty") {
			h.r.Fault("empty-broker-list")
			return "", true
		}
	}
	var l []string
	for _, id := range h.c.BrokerIDs() {
		if len(l) < h.shown {
			l = append(l, fmt.Sprintf("%s:%d", host(mode, id), ports[mode]))
		}
	}
	return strings.Join(l, ","), true
}

func run(r *core.Run) {
	p := r.Plan
	h := &H{r: r, p: p, mode: modes[p.K("mode")], exists: true, enabled: true, shown: 1 + int(p.K("brokers"))/2, spells: map[string]*core.Op{}, until: map[string]int64{}, replies: map[uint64][]*reply{}}
	h.base = time.Now().UnixNano() - r.W.Now()
	h.prov = &provider{h: h}
	h.prov.rotate()
	h.c = simk.NewCluster(r.W, "m", r.Rng, int(p.K("brokers")))
	h.c.LatMin, h.c.LatMax = p.K("lat_min")*1000, p.K("lat_max")*1000
	h.c.CreateTopic("t", 3, nil, false, 0)
	bad := func(k *simk.Conn, why string) { h.v("wrong-endpoint", "client on node %d: %s", k.Node, why) }
	for _, m := range modes {
		l := &simk.Listener{Name: m, Host: func(id int32) string { return host(m, id) }, Port: ports[m], TLS: m != "None", Bad: bad}
		switch {
		case strings.HasSuffix(m, "SaslIam"):
			l.Mechs, l.Login = []string{"AWS_MSK_IAM"}, h.iamLogin
		case strings.HasSuffix(m, "SaslScram"):
			l.Mechs, l.Login = []string{"SCRAM-SHA-512"}, h.scramLogin
		}
		h.c.Listeners = append(h.c.Listeners, l)
	}
	kgo.SimDialTLS = func(ctx context.Context, network, host string, c *tls.Config) (net.Conn, error) {
		ok := false
		for _, q := range h.procs {
			ok = ok || q.node == runtime.SimNode() && q.tls == c
		}
		if !ok {
			h.v("tls-config", "node %d dials with a TLS configuration it was not given", runtime.SimNode())
		}
		return h.c.DialTLS(ctx, network, host)
	}
	for _, op := range p.Ops { // it comes into being later
		switch op.Kind {
		case "create":
			h.exists = false
		case "enable":
			h.enabled = false
		}
	}
	for i := 0; i < int(p.K("procs")); i++ {
		h.procs = append(h.procs, h.newProc(int32(i+1)))
	}
	env := &flt.Env{R: r, C: h.c, Node: func(i int) int32 { return int32(i + 1) }, Topics: []string{"t"}}
	for _, op := range p.Ops {
		if d := op.At*1000 - r.W.Now(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		if env.Do(op) {
			continue
		}
		switch op.Kind {
		case "create":
			h.exists = true
			r.W.Trace("the cluster is created")
		case "enable":
			h.enabled = true
			r.W.Trace("%s is enabled", h.mode)
		case "grow":
			h.shown++
		case "rotate":
			r.Fault("credential-rotation")
			h.prov.rotate()
		case "spell":
			h.spells[op.Str], h.until[op.Str] = op, r.W.Now()+op.Dur*1000
			r.W.Trace("spell %s for %d ms", op.Str, op.Dur/1000)
		default:
			q := h.procs[op.M]
			for i := 0; i < maxi(op.N, 1); i++ {
				h.goDo(q, op.Kind, op.Key+i)
			}
		}
	}
	if d := p.K("end")*1000 - r.W.Now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	env.End()
	clear(h.until)
	h.wait("faults", 200e9)
	time.Sleep(time.Duration(20e9)) // credentials, back-offs
	h.final = true
	for _, q := range h.procs {
		h.goDo(q, "config", 0)
		h.goDo(q, "client", 0)
		for i := range q.clients {
			h.goDo(q, "use", i)
		}
	}
	h.wait("final", 400e9)
	if runtime.SimGetStats().Overrun {
		r.Res.Inconcl = "step budget"
		return
	}
	for _, q := range h.procs {
		for i := range q.clients {
			h.goDo(q, "close", i)
		}
	}
	h.wait("closing", 60e9)
	for k, n := range h.c.Faults {
		r.Res.Faults["net:"+k] += n
	}
	r.Count("control-plane-requests", int64(h.nHTTP))
	r.Count("provider-calls", int64(len(h.prov.calls)))
	for _, pn := range runtime.SimPanics() {
		h.v("panic", "%s", core.PanicText(pn))
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (h *H) wait(what string, d int64) {
	until := h.r.W.Now() + d
	for h.r.W.Now() < until && h.pending > 0 && !runtime.SimGetStats().Overrun {
		time.Sleep(100 * time.Millisecond)
	}
	if h.pending > 0 && !runtime.SimGetStats().Overrun {
		h.v("stuck", "%d calls did not return within %d s (%s)", h.pending, d/1e9, what)
	}
}

func (h *H) newProc(node int32) *proc {
	q := &proc{h: h, node: node, good: map[string]bool{}}
	var cp aws.CredentialsProvider = h.prov
	if h.p.K("cache") == 1 {
		cp = aws.NewCredentialsCache(h.prov)
	}
	cfg := aws.Config{Region: "eu-west-1", Credentials: cp, HTTPClient: httpClient{h}}
	var fns []func(*kafka.Options)
	if h.p.K("opt_fn") == 1 {
		cfg.HTTPClient = nil
		fns = append(fns, func(o *kafka.Options) { o.HTTPClient, o.Retryer = httpClient{h}, aws.NopRetryer{} })
	}
	q.msk = msk.NewMskClusterWithClientConfig(clusterName, msk.AuthType(h.p.K("mode")), cfg, fns...)
	opts := []kgo.Opt{kgo.ClientID(fmt.Sprintf("app%d", node))}
	if h.mode == "None" {
		opts = append(opts, kgo.Dialer(h.c.Dial))
	} else if h.p.K("own_dial") == 1 {
		opts = append(opts, kgo.Dialer(h.c.DialTLS))
	} else {
		q.tls = &tls.Config{ServerName: "x"}
		if q.msk.WithTlsConfig(q.tls) != q.msk {
			h.v("builder", "WithTlsConfig returns another cluster")
		}
	}
	if h.p.K("override") == 1 {
		opts = append(opts, kgo.SeedBrokers(h.override()))
	}
	for i := int64(0); i < h.p.K("more_opts"); i++ {
		opts = append(opts, kgo.ConnIdleTimeout(20*time.Second))
	}
	q.msk.WithClientOptions(kgo.ClientID("replaced"), kgo.SeedBrokers("nowhere:1")).WithClientOptions(opts...)
	if strings.HasSuffix(h.mode, "Scram") {
		q.msk.WithScramUserPass(scramUser, scramPass)
	}
	return q
}

func (h *H) override() string { return fmt.Sprintf("%s:%d", host(h.mode, 1), ports[h.mode]) }

// httpClient lets the SDK use the simulated control plane.
type httpClient struct{ *H }

// goDo does something in a process, concurrently.
func (h *H) goDo(q *proc, kind string, key int) {
	h.pending++
	go func() {
		runtime.SimSetNode(q.node)
		defer simk.Atomic(func() { h.pending-- })
		switch kind {
		case "config":
			q.Config()
		case "client":
			q.connect()
		case "use":
			if c := q.pick(key); c != nil {
				q.use(c)
			}
		case "close":
			if c := q.pick(key); c != nil {
				q.close(c)
			}
		}
	}()
}

func (q *proc) pick(key int) (c *client) {
	simk.Atomic(func() {
		if len(q.clients) > 0 {
			if c = q.clients[key%len(q.clients)]; c.closed {
				c = nil
			}
		}
	})
	return
}

// Config is the Cluster's, watched.
func (q *proc) Config() ([]kgo.Opt, error) {
	h := q.h
	g := runtime.SimGoid()
	var from, fails0 int
	var start int64
	simk.Atomic(func() {
		from, fails0, start = len(h.replies[g]), h.prov.fails, h.r.W.Now()
		q.calling++
	})
	opts, err := q.msk.Config()
	simk.Atomic(func() {
		q.calling--
		h.r.OK("C20")
		h.r.W.Trace("node %d: Config of goroutine %d returns %d options, %v", q.node, g, len(opts), err)
		mine := h.replies[g][from:]
		var last *reply
		if len(mine) > 0 {
			last = mine[len(mine)-1]
		}
		if err != nil {
			h.r.Count("config-errors", 1)
			q.failed(last, mine, h.prov.fails > fails0, start, err)
		} else {
			h.r.Count("configs", 1)
			q.succeeded(last, opts)
		}
	})
	return opts, err
}

func (q *proc) failed(last *reply, mine []*reply, provider bool, start int64, err error) {
	h := q.h
	switch {
	case provider, last != nil && !last.ok:
	case last == nil:
		h.v("config-error", "node %d: Config fails without having asked: %v", q.node, err)
	case last.op == "list" && last.hit == "" && (!last.next || last.noarn): // there is none
	case last.op == "boot" && last.arn != arnOf(clusterName):
		h.v("wrong-cluster", "node %d asks for the brokers of %s, its cluster is %s", q.node, last.arn, clusterName)
	case last.op == "boot" && last.boot[h.mode] == "":
	default:
		h.v("config-error", "node %d: Config fails although the control plane gave what it needs (last: %+v): %v", q.node, *last, err)
	}
	if h.final && h.exists && h.enabled && (last == nil || last.why != "expired token") { // (may run out under way)
		h.v("config-error-after-faults", "node %d: %v", q.node, err)
	}
	if h.p.K("opt_fn") == 1 {
		n := 0
		for _, r := range mine {
			if r.op == last.op && !r.ok {
				n++
			}
		}
		if n > 1 {
			h.v("options-ignored", "node %d was told not to retry, and made %d attempts", q.node, n)
		}
	}
}

func (q *proc) succeeded(last *reply, opts []kgo.Opt) {
	h := q.h
	sc := kgo.SimInspect(opts...)
	seeds := strings.Join(sc.Seeds, ",")
	if last != nil {
		want := ""
		if last.op == "boot" && last.ok {
			want = last.boot[h.mode]
		}
		if last.op == "boot" && last.arn != arnOf(clusterName) {
			h.v("wrong-cluster", "node %d takes the brokers of %s, its cluster is %s", q.node, last.arn, clusterName)
		}
		if want == "" {
			h.v("config-without-brokers", "node %d: Config returns %d options (seeds %q) although no brokers for %s were obtained (last: %+v)", q.node, len(opts), seeds, h.mode, *last)
			return
		}
		if h.p.K("override") == 1 {
			want = h.override()
		}
		if seeds != want {
			h.v("wrong-brokers", "node %d: Config for %s returns seeds %q, the control plane said %q", q.node, h.mode, seeds, want)
		}
	} else if h.p.K("override") == 1 && len(q.good) > 0 {
		if seeds != h.override() {
			h.v("options-ignored", "node %d: Config returns seeds %q, the application set %q", q.node, seeds, h.override())
		}
	} else if !q.good[seeds] {
		h.v("wrong-brokers", "node %d: Config for %s returns seeds %q, the control plane said %v", q.node, h.mode, seeds, keys(q.good))
	}
	want := ""
	switch {
	case strings.HasSuffix(h.mode, "SaslIam"):
		want = "AWS_MSK_IAM"
	case strings.HasSuffix(h.mode, "SaslScram"):
		want = "SCRAM-SHA-512"
	}
	if m := strings.Join(sc.Mechs, ","); m != want {
		h.v("wrong-mechanism", "node %d: Config for %s logs in by %q, want %q", q.node, h.mode, m, want)
	}
	if id := fmt.Sprintf("app%d", q.node); sc.ClientID != id {
		h.v("options-ignored", "node %d: Config has client id %q, the application set %q", q.node, sc.ClientID, id)
	}
}

func keys(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	slices.Sort(l)
	return
}

// connect makes a client the way the library does.
func (q *proc) connect() {
	h := q.h
	var id string
	simk.Atomic(func() {
		q.asked++
		id = fmt.Sprintf("app%d-%d", q.node, q.asked)
	})
	opts := []kgo.Opt{kgo.ClientID(id)}
	if h.p.K("few_opts") == 0 {
		opts = append(opts, kgo.RetryTimeout(20*time.Second), kgo.RequestTimeoutOverhead(5*time.Second), kgo.RequestRetries(5))
	}
	k, err := streams.NewClient(q, opts...)
	if err != nil {
		return // judged where Config returned it
	}
	if is := k.SimClientID(); is != id {
		simk.Atomic(func() {
			h.v("options-mixed-up", "node %d: a client made with the client id %q has the client id %q", q.node, id, is)
		})
	}
	var c *client
	simk.Atomic(func() {
		q.nextID++
		c = &client{k: k, id: q.nextID}
		q.clients = append(q.clients, c)
		h.r.Count("clients", 1)
	})
	q.use(c)
}

// use makes a request; after the faults one of several attempts has to succeed (sessions and credentials
// may run out under a request).
func (q *proc) use(c *client) {
	h := q.h
	for i := 1; ; i++ {
		err := q.request(c)
		last := true
		simk.Atomic(func() {
			if err != nil && h.final && !c.closed {
				if last = i == 8; last {
					h.v("request-fails-after-faults", "node %d client %d: %d attempts fail: %v", q.node, c.id, i, err)
				}
			}
		})
		if last {
			return
		}
		time.Sleep(time.Duration(i) * 777 * time.Millisecond)
	}
}

func (q *proc) request(c *client) error {
	h := q.h
	var start int64
	simk.Atomic(func() { start = h.r.W.Now() })
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	req := kmsg.NewPtrMetadataRequest()
	t := kmsg.NewMetadataRequestTopic()
	t.Topic = kmsg.StringPtr("t")
	req.Topics = append(req.Topics, t)
	resp, err := req.RequestWith(ctx, c.k)
	simk.Atomic(func() {
		now := h.r.W.Now()
		h.r.W.Trace("node %d client %d: request took %d ms: %v", q.node, c.id, (now-start)/1e6, err)
		h.r.Count("requests", 1)
		if err != nil {
			h.r.Count("request-errors", 1)
		} else if len(resp.Topics) != 1 || resp.Topics[0].ErrorCode != 0 {
			h.v("odd-answer", "node %d client %d: %+v", q.node, c.id, resp)
		}
	})
	return err
}

func (q *proc) close(c *client) {
	h := q.h
	alone := false
	var n int
	simk.Atomic(func() {
		c.closed = true
		alone = true
		for _, x := range q.clients {
			alone = alone && x.closed
		}
		n = len(h.prov.calls)
	})
	c.k.Close()
	time.Sleep(2 * time.Second)
	simk.Atomic(func() {
		for _, x := range q.clients {
			alone = alone && x.closed
		}
		if !alone || q.calling > 0 || h.p.K("cache") == 1 {
			return
		}
		for _, r := range h.prov.calls[:n] {
			if r.node == q.node && r.end == 0 {
				h.v("login-outlives-client", "node %d: the provider is still being asked for credentials 2 s after the client was closed", q.node)
			}
		}
	})
}
