package simk

import (
	"fmt"
	"sort"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// Kafka error codes used by the simulated brokers.
const (
	eOffsetOutOfRange     = 1
	eUnknownTopic         = 3
	eTopicAuth            = 29
	eInvalidConfig        = 40
	eLeaderNotAvailable   = 5
	eNotLeader            = 6
	eRequestTimedOut      = 7
	eMessageTooLarge      = 10
	eCoordLoading         = 14
	eCoordNotAvailable    = 15
	eNotCoordinator       = 16
	eInvalidTopic         = 17
	eNotEnoughReplicas    = 19
	eNotEnoughAfterAppend = 20
	eIllegalGeneration    = 22
	eInconsistentProtocol = 23
	eUnknownMember        = 25
	eRebalance            = 27
	eTopicExists          = 36
	eInvalidPartitions    = 37
	eInvalidRF            = 38
	eNotController        = 41
	eOutOfOrderSeq        = 45
	eInvalidProducerEpoch = 47
	eInvalidTxnState      = 48
	eInvalidPIDMapping    = 49
	eConcurrentTxns       = 51
	eFencedLeaderEpoch    = 74
	eUnknownLeaderEpoch   = 75
	eMemberIDRequired     = 79
	eProducerFenced       = 90
)

type Broker struct {
	c            *Cluster
	ID           int32
	down         bool
	stalledUntil int64
}

func (b *Broker) addr() string { return fmt.Sprintf("%s-b%d:9092", b.c.Name, b.ID) }

type Topic struct {
	Name      string
	Parts     []*Partition
	Configs   map[string]string
	RF        int16
	VisibleAt map[int32]int64 // per broker
	CreatedBy int32
	CreatedAt int64
}

// Txn is one transaction, as the coordinator saw it.
type Txn struct {
	ID        int
	TxnID     string
	PID       int64
	Epoch     int16
	Node      int32
	Begin     int64
	Decided   int64
	Ended     int64
	Outcome   int8 // 0 open, 1 committed, 2 aborted
	Reason    string
	Recs      []*Rec
	Parts     []*Partition
	firstProd int64
}

const (
	tsEmpty = iota
	tsOngoing
	tsPrepareCommit
	tsPrepareAbort
	tsCommitted
	tsAborted
)

type txnCoord struct {
	id      string
	pid     int64
	epoch   int16
	state   int
	timeout int64
	coord   int32
	loadTil int64
	cur     *Txn
	pending int
	node    int32
	gen     int
}

// Rule is one armed request fault.
type Rule struct {
	ID     int
	From   int64
	Node   int32 // 0: any
	Broker int32 // -1: any
	Key    int16 // -1: any
	Skip   int
	N      int
	Kind   string // drop, lost, delay, delayresp, err, errafter, blackhole, void
	Arg    int64
	Until  int64 // 0: no limit
	Latch  bool  // only requests of one transactional id: that of the first one it applies to
	txn    string
	Fired  int
}

type Cluster struct {
	Name       string
	W          *World
	Rng        *Rng
	brokers    []*Broker
	controller int32
	topics     map[string]*Topic
	order      []string
	conns      map[int]*Conn
	nextConn   int
	cuts       map[[2]int32]bool
	refuse     map[int32]int
	rules      []*Rule
	groups     map[string]*Group
	txns       map[string]*txnCoord
	pidOwner   map[int64]*txnCoord
	nextPID    int64
	nextMember int

	Faults    map[string]int
	Requests  map[int16]int
	OnRequest func(node int32, req kmsg.Request) // called when a broker has received a request
	SetupAt   [64]int64                          // last metadata, coordinator lookup, handshake or producer id request, or lost connection, of each node
	ConfigErr func() error
	ExtraOpts []kgo.Opt
	Listeners []*Listener // none: one endpoint without logins

	LatMin, LatMax       int64
	MarkerMin, MarkerMax int64
	MetaLag              int64 // max delay before brokers learn of a new topic or leader
	JoinDelay            int64 // initial rebalance delay
	FetchBatches         int   // max batches per partition and fetch (0: no limit)
	TxnSlack             int64
	StrictSeq            bool // the first batch of a producer in a partition must have sequence number 0

	Txns         []*Txn
	Creations    []string             // topic names in creation order
	Described    map[int32]*Described // by node
	DefaultParts int                  // partitions of a topic created with the default count
	CreateCalls  int
	OnTxnDecide  func(*Txn)
	OnTxnEnd     func(*Txn)
	OnAppend     func(*Partition, []*Rec)
	ProduceErr   func(node int32, p *Partition, recs []*Rec) int16
}

func NewCluster(w *World, name string, rng *Rng, brokers int) *Cluster {
	c := &Cluster{Name: name, W: w, Rng: rng, topics: map[string]*Topic{}, conns: map[int]*Conn{},
		cuts: map[[2]int32]bool{}, refuse: map[int32]int{}, groups: map[string]*Group{}, txns: map[string]*txnCoord{},
		pidOwner: map[int64]*txnCoord{}, nextPID: 1000, Faults: map[string]int{}, Requests: map[int16]int{}, Described: map[int32]*Described{},
		LatMin: 50e3, LatMax: 600e3, MarkerMin: 100e3, MarkerMax: 3e6, TxnSlack: 2e9}
	for i := 0; i < brokers; i++ {
		c.brokers = append(c.brokers, &Broker{c: c, ID: int32(i + 1)})
	}
	c.controller = 1
	return c
}

func (c *Cluster) latency() int64 { return c.LatMin + c.Rng.I63(c.LatMax-c.LatMin+1) }

func (c *Cluster) broker(id int32) *Broker {
	for _, b := range c.brokers {
		if b.ID == id {
			return b
		}
	}
	return nil
}

func (c *Cluster) BrokerIDs() []int32 {
	var out []int32
	for _, b := range c.brokers {
		out = append(out, b.ID)
	}
	return out
}

func (c *Cluster) upBrokers() []*Broker {
	var out []*Broker
	for _, b := range c.brokers {
		if !b.down {
			out = append(out, b)
		}
	}
	return out
}

func (c *Cluster) randUp() int32 {
	up := c.upBrokers()
	if len(up) == 0 {
		return -1
	}
	return up[c.Rng.Intn(len(up))].ID
}

// Topic returns a topic by name, or nil.
func (c *Cluster) Topic(name string) *Topic { return c.topics[name] }

// Topics returns the names of all topics, in creation order.
func (c *Cluster) Topics() []string { return c.order }

func (c *Cluster) part(topic string, p int32) *Partition {
	t := c.topics[topic]
	if t == nil || p < 0 || int(p) >= len(t.Parts) {
		return nil
	}
	return t.Parts[p]
}

// CreateTopic creates a topic at once, visible everywhere (lag: brokers learn of it later).
func (c *Cluster) CreateTopic(name string, parts int, configs map[string]string, lag bool, node int32) *Topic {
	t := &Topic{Name: name, Configs: configs, VisibleAt: map[int32]int64{}, CreatedBy: node, CreatedAt: c.W.Now()}
	for i := 0; i < parts; i++ {
		p := &Partition{c: c, Topic: name, Num: int32(i), leader: c.randUp(), ongoing: map[int64]int64{}, pids: map[int64]*pidState{}}
		p.mdLeader = p.leader
		p.epochEnds = append(p.epochEnds, epochStart{0, 0})
		t.Parts = append(t.Parts, p)
	}
	if lag && c.MetaLag > 0 {
		for _, b := range c.brokers {
			t.VisibleAt[b.ID] = c.W.Now() + c.Rng.I63(c.MetaLag)
		}
	}
	c.topics[name] = t
	c.order = append(c.order, name)
	c.Creations = append(c.Creations, name)
	c.W.Trace("%s: topic %s created with %d partitions", c.Name, name, parts)
	return t
}

func (t *Topic) visible(b int32, now int64) bool { return t.VisibleAt[b] <= now }

// AppendDirect puts records into a partition without a client (an outside producer).
func (c *Cluster) AppendDirect(topic string, part int32, recs ...*Rec) {
	p := c.part(topic, part)
	c.appendData(p, &batch{pid: -1, epoch: -1, seq: -1, recs: recs}, nil, 0)
}

// DirectTxn writes records of an outside transactional producer; it returns the function that ends it.
func (c *Cluster) DirectTxn(topic string, part int32, recs ...*Rec) func(commit bool) {
	c.nextPID++
	pid := c.nextPID
	p := c.part(topic, part)
	x := &Txn{ID: -1, TxnID: "outside", PID: pid, Begin: c.W.Now(), Parts: []*Partition{p}}
	c.appendData(p, &batch{pid: pid, txn: true, recs: recs}, x, 0)
	return func(commit bool) { x.Outcome = outcome(commit); c.appendMarker(p, x) }
}

func outcome(commit bool) int8 {
	if commit {
		return 1
	}
	return 2
}

func (c *Cluster) appendData(p *Partition, b *batch, x *Txn, node int32) {
	now := c.W.Now()
	for _, r := range b.recs {
		r.Topic, r.Part, r.Txn, r.At, r.Node, r.PID, r.Epoch = p.Topic, p.Num, x, now, node, b.pid, b.epoch
		if r.Ts == 0 {
			r.Ts = now/1e6 + 1
		}
	}
	if len(b.recs) > 0 && b.firstTs == 0 {
		b.firstTs = b.recs[0].Ts
	}
	p.append(b)
	if x != nil {
		x.Recs = append(x.Recs, b.recs...)
	}
	if c.OnAppend != nil {
		c.OnAppend(p, b.recs)
	}
}

func (c *Cluster) appendMarker(p *Partition, x *Txn) {
	val := []byte{0, 0, 0, 0, 0, 0}
	key := []byte{0, 0, 0, 0}
	if x.Outcome == 1 {
		key[3] = 1
	}
	r := &Rec{Topic: p.Topic, Part: p.Num, Key: key, Val: val, Ctrl: x.Outcome, PID: x.PID, Epoch: x.Epoch, Txn: x, At: c.W.Now(), Ts: c.W.Now()/1e6 + 1}
	p.append(&batch{pid: x.PID, epoch: x.Epoch, seq: -1, txn: true, ctrl: x.Outcome, firstTs: r.Ts, recs: []*Rec{r}})
	if c.OnAppend != nil {
		c.OnAppend(p, []*Rec{r})
	}
}

// ---- broker faults

// Crash stops a broker; its leaderships and coordinators move after failover.
func (c *Cluster) Crash(id int32, failover int64) {
	b := c.broker(id)
	if b == nil || b.down || len(c.upBrokers()) < 2 {
		return
	}
	c.Faults["broker-crash"]++
	c.W.Trace("%s: broker %d crashes", c.Name, id)
	b.down = true
	for _, k := range c.sortedConns() {
		if k.b == b {
			c.reset(k, "broker crash")
		}
	}
	for _, n := range c.order {
		for _, p := range c.topics[n].Parts {
			if p.leader == id {
				p.dropWaiters()
				p.leader = -1
			}
		}
	}
	c.W.After(failover, func() {
		c.failover()
	})
}

func (c *Cluster) failover() {
	if b := c.broker(c.controller); b == nil || b.down {
		c.controller = c.randUp()
	}
	for _, n := range c.order {
		for _, p := range c.topics[n].Parts {
			if p.leader == -1 {
				c.moveLeader(p, c.randUp())
			}
		}
	}
	for _, n := range c.groupNames() {
		g := c.groups[n]
		if b := c.broker(g.coord); b == nil || b.down {
			c.moveGroup(g)
		}
	}
	for _, n := range c.txnNames() {
		x := c.txns[n]
		if b := c.broker(x.coord); b == nil || b.down {
			c.moveTxn(x)
		}
	}
}

// Restart brings a crashed broker back.
func (c *Cluster) Restart(id int32) {
	b := c.broker(id)
	if b == nil || !b.down {
		return
	}
	b.down = false
	c.W.Trace("%s: broker %d restarts", c.Name, id)
	c.failover()
}

// Stall makes a broker answer nothing for a while.
func (c *Cluster) Stall(id int32, d int64) {
	if b := c.broker(id); b != nil && !b.down {
		b.stalledUntil = c.W.Now() + d
		c.Faults["broker-stall"]++
		c.W.Trace("%s: broker %d stalls %dms", c.Name, id, d/1e6)
	}
}

func (c *Cluster) moveLeader(p *Partition, to int32) {
	if to < 0 || p.leader == to {
		return
	}
	p.leader = to
	p.lepoch++
	p.epochEnds = append(p.epochEnds, epochStart{p.lepoch, p.hw})
	p.dropWaiters()
	c.W.Trace("%s: %s/%d leader is now %d", c.Name, p.Topic, p.Num, to)
	ep := p.lepoch
	c.W.After(c.Rng.I63(c.MetaLag+1), func() {
		if p.lepoch == ep {
			p.mdLeader, p.mdEpoch = p.leader, ep
		}
	})
}

// MoveLeader moves a partition to another broker.
func (c *Cluster) MoveLeader(topic string, part int32) {
	p := c.part(topic, part)
	up := c.upBrokers()
	if p == nil || p.leader == -1 || len(up) < 2 {
		return
	}
	c.Faults["leader-move"]++
	for {
		if to := c.randUp(); to != p.leader {
			c.moveLeader(p, to)
			return
		}
	}
}

func (c *Cluster) moveGroup(g *Group) {
	to := c.randUp()
	if len(c.upBrokers()) > 1 {
		for to == g.coord {
			to = c.randUp()
		}
	}
	g.coord = to
	g.loadTil = c.W.Now() + c.Rng.I63(200e6)
	g.failPending()
	c.W.Trace("%s: group %s coordinator is now %d", c.Name, g.Name, to)
}

func (c *Cluster) moveTxn(x *txnCoord) {
	to := c.randUp()
	if len(c.upBrokers()) > 1 {
		for to == x.coord {
			to = c.randUp()
		}
	}
	x.coord = to
	x.loadTil = c.W.Now() + c.Rng.I63(200e6)
}

// MoveGroups moves every group coordinator.
func (c *Cluster) MoveGroups() {
	c.Faults["coordinator-move"]++
	for _, n := range c.groupNames() {
		c.moveGroup(c.groups[n])
	}
}

// MoveTxns moves every transaction coordinator.
func (c *Cluster) MoveTxns() {
	c.Faults["coordinator-move"]++
	for _, n := range c.txnNames() {
		c.moveTxn(c.txns[n])
	}
}

// RefuseDials makes the next n dials of a node fail.
func (c *Cluster) RefuseDials(node int32, n int) { c.refuse[node] += n }

// Compact runs the log cleaner on a topic.
const compactLag = 15e9

func (c *Cluster) Compact(topic string, dropTombstones bool, tail int64) {
	t := c.topics[topic]
	if t == nil {
		return
	}
	n := 0
	for _, p := range t.Parts {
		n += p.compact(dropTombstones, tail, c.W.Now()-compactLag)
	}
	if n > 0 {
		c.Faults["compaction"]++
		c.W.Trace("%s: compaction of %s removed %d records", c.Name, topic, n)
	}
}

func (c *Cluster) groupNames() []string {
	var out []string
	for n := range c.groups {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
func (c *Cluster) txnNames() []string {
	var out []string
	for n := range c.txns {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// ---- request faults

func (c *Cluster) AddRule(r *Rule) { c.rules = append(c.rules, r) }
func (c *Cluster) ClearRules()     { c.rules = nil }

func (c *Cluster) applyRules(cx *reqCtx, next func()) {
	now := c.W.Now()
	for _, r := range c.rules {
		if r.N <= 0 || now < r.From || (r.Node != 0 && r.Node != cx.node) ||
			(r.Broker >= 0 && r.Broker != cx.b.ID) || (r.Key >= 0 && r.Key != cx.key) {
			continue
		}
		if r.Until > 0 && now >= r.Until {
			continue
		}
		if r.Latch {
			if id := txnID(cx.req); id == "" || r.txn != "" && id != r.txn {
				continue
			}
		}
		if r.Skip > 0 {
			r.Skip--
			continue
		}
		if r.Key < 0 && cx.key == 18 && (r.Kind == "err" || r.Kind == "errafter") {
			continue
		}
		if (r.Kind == "err" || r.Kind == "errafter") && errResponse(cx, int16(r.Arg)) == nil {
			continue
		}
		if ip, ok := cx.req.(*kmsg.InitProducerIDRequest); ok && ip.TransactionalID == nil && r.Kind == "err" {
			continue // only transactional ids have a coordinator that could answer so
		}
		if r.Latch {
			r.txn = txnID(cx.req)
		}
		if r.Kind == "parterr" && cx.key != 1 {
			continue
		}
		r.N--
		r.Fired++
		c.Faults["req-"+r.Kind]++
		c.W.Trace("fault: rule %d %s key %d node %d broker %d", r.ID, r.Kind, cx.key, cx.node, cx.b.ID)
		switch r.Kind {
		case "drop":
			c.reset(cx.k, "request dropped")
			return
		case "lost":
			cx.dropResp = true
		case "blackhole":
			cx.mute = true
		case "void": // swallowed: never carried out, never answered
			return
		case "delay":
			c.W.After(r.Arg, func() {
				if cx.k.rclos == nil && !cx.b.down {
					next()
				}
			})
			return
		case "delayresp":
			cx.respDelay = r.Arg
		case "err":
			code := int16(r.Arg)
			c.W.After(100e3, func() {
				if cx.k.rclos == nil {
					cx.reply(errResponse(cx, code))
				}
			})
			return
		case "errafter":
			cx.errAfter = int16(r.Arg)
		case "parterr": // one partition of a fetch cannot be read
			cx.partErr, cx.partPick = int16(r.Arg), r.ID+r.N
		}
		break
	}
	next()
}

func txnID(q kmsg.Request) string {
	switch q := q.(type) {
	case *kmsg.ProduceRequest:
		if q.TransactionID != nil {
			return *q.TransactionID
		}
	case *kmsg.InitProducerIDRequest:
		if q.TransactionalID != nil {
			return *q.TransactionalID
		}
	case *kmsg.AddPartitionsToTxnRequest:
		return q.TransactionalID
	case *kmsg.EndTxnRequest:
		return q.TransactionalID
	}
	return ""
}

// errResponse builds the answer that reports an error code on everything asked, or nil when the request has no such answer.
func errResponse(cx *reqCtx, code int16) kmsg.Response {
	switch q := cx.req.(type) {
	case *kmsg.ProduceRequest:
		if q.Acks == 0 {
			return nil
		}
		r := kmsg.NewPtrProduceResponse()
		for _, t := range q.Topics {
			rt := kmsg.NewProduceResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewProduceResponseTopicPartition()
				rp.Partition, rp.ErrorCode, rp.BaseOffset = p.Partition, code, -1
				rt.Partitions = append(rt.Partitions, rp)
			}
			r.Topics = append(r.Topics, rt)
		}
		return r
	case *kmsg.FetchRequest:
		r := kmsg.NewPtrFetchResponse()
		for _, t := range q.Topics {
			rt := kmsg.NewFetchResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewFetchResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p.Partition, code
				rt.Partitions = append(rt.Partitions, rp)
			}
			r.Topics = append(r.Topics, rt)
		}
		return r
	case *kmsg.ListOffsetsRequest:
		r := kmsg.NewPtrListOffsetsResponse()
		for _, t := range q.Topics {
			rt := kmsg.NewListOffsetsResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewListOffsetsResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p.Partition, code
				rt.Partitions = append(rt.Partitions, rp)
			}
			r.Topics = append(r.Topics, rt)
		}
		return r
	case *kmsg.FindCoordinatorRequest:
		r := kmsg.NewPtrFindCoordinatorResponse()
		r.ErrorCode = code
		return r
	case *kmsg.JoinGroupRequest:
		r := kmsg.NewPtrJoinGroupResponse()
		r.ErrorCode, r.MemberID = code, q.MemberID
		r.Protocol = new(string)
		return r
	case *kmsg.SyncGroupRequest:
		r := kmsg.NewPtrSyncGroupResponse()
		r.ErrorCode = code
		return r
	case *kmsg.DescribeGroupsRequest:
		r := kmsg.NewPtrDescribeGroupsResponse()
		for _, n := range q.Groups {
			g := kmsg.NewDescribeGroupsResponseGroup()
			g.Group, g.ErrorCode = n, code
			r.Groups = append(r.Groups, g)
		}
		return r
	case *kmsg.HeartbeatRequest:
		r := kmsg.NewPtrHeartbeatResponse()
		r.ErrorCode = code
		return r
	case *kmsg.LeaveGroupRequest:
		r := kmsg.NewPtrLeaveGroupResponse()
		r.ErrorCode = code
		return r
	case *kmsg.InitProducerIDRequest:
		r := kmsg.NewPtrInitProducerIDResponse()
		r.ErrorCode, r.ProducerID = code, -1
		return r
	case *kmsg.AddPartitionsToTxnRequest:
		r := kmsg.NewPtrAddPartitionsToTxnResponse()
		for _, t := range q.Topics {
			rt := kmsg.NewAddPartitionsToTxnResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p, code
				rt.Partitions = append(rt.Partitions, rp)
			}
			r.Topics = append(r.Topics, rt)
		}
		return r
	case *kmsg.EndTxnRequest:
		r := kmsg.NewPtrEndTxnResponse()
		r.ErrorCode = code
		return r
	case *kmsg.CreateTopicsRequest:
		r := kmsg.NewPtrCreateTopicsResponse()
		for _, t := range q.Topics {
			rt := kmsg.NewCreateTopicsResponseTopic()
			rt.Topic, rt.ErrorCode = t.Topic, code
			r.Topics = append(r.Topics, rt)
		}
		return r
	case *kmsg.MetadataRequest:
		if len(q.Topics) == 0 {
			return nil
		}
		r := cx.c.metadata(cx.b, cx.k.Lis, q)
		for i := range r.Topics {
			r.Topics[i].ErrorCode = code
			r.Topics[i].Partitions = nil
		}
		return r
	case *kmsg.OffsetFetchRequest:
		r := kmsg.NewPtrOffsetFetchResponse()
		r.ErrorCode = code
		return r
	}
	return nil
}

var maxVersions = map[int16]int16{
	0: 7, 1: 11, 2: 5, 3: 8, 8: 7, 9: 5, 10: 2, 11: 5, 12: 3, 13: 2, 14: 3, 15: 3, 17: 1, 18: 3, 19: 4, 20: 3, 22: 3, 23: 3, 24: 2, 26: 2, 36: 1,
}

func (c *Cluster) apiVersions(v int16) *kmsg.ApiVersionsResponse {
	r := kmsg.NewPtrApiVersionsResponse()
	var keys []int
	for k := range maxVersions {
		if (k == 17 || k == 36) && len(c.Listeners) == 0 {
			continue
		}
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	for _, k := range keys {
		e := kmsg.NewApiVersionsResponseApiKey()
		e.ApiKey, e.MaxVersion = int16(k), maxVersions[int16(k)]
		r.ApiKeys = append(r.ApiKeys, e)
	}
	return r
}

func (c *Cluster) metadata(b *Broker, lis *Listener, q *kmsg.MetadataRequest) *kmsg.MetadataResponse {
	r := kmsg.NewPtrMetadataResponse()
	for _, x := range c.brokers {
		if x.down {
			continue
		}
		e := kmsg.NewMetadataResponseBroker()
		h, p := (&Conn{c: c, b: x, Lis: lis}).host()
		e.NodeID, e.Host, e.Port = x.ID, h, int32(p)
		r.Brokers = append(r.Brokers, e)
	}
	id := c.Name
	r.ClusterID = &id
	r.ControllerID = c.controller
	names := []string{}
	if q.Topics == nil {
		for _, n := range c.order {
			if c.topics[n] != nil && c.topics[n].visible(b.ID, c.W.Now()) {
				names = append(names, n)
			}
		}
	} else {
		for _, t := range q.Topics {
			if t.Topic != nil {
				names = append(names, *t.Topic)
			}
		}
	}
	for _, n := range names {
		n := n
		e := kmsg.NewMetadataResponseTopic()
		e.Topic = &n
		t := c.topics[n]
		if t == nil || !t.visible(b.ID, c.W.Now()) {
			e.ErrorCode = eUnknownTopic
			if n == "" {
				e.ErrorCode = eInvalidTopic
			}
			r.Topics = append(r.Topics, e)
			continue
		}
		for _, p := range t.Parts {
			pe := kmsg.NewMetadataResponseTopicPartition()
			pe.Partition, pe.Leader, pe.LeaderEpoch = p.Num, p.mdLeader, p.mdEpoch
			if x := c.broker(p.mdLeader); x == nil || x.down {
				pe.Leader, pe.ErrorCode = -1, eLeaderNotAvailable
			}
			rf := 3
			if t.RF > 0 {
				rf = int(t.RF)
			}
			for _, x := range c.brokers {
				if len(pe.Replicas) < rf {
					pe.Replicas = append(pe.Replicas, x.ID)
					pe.ISR = append(pe.ISR, x.ID)
				}
			}
			e.Partitions = append(e.Partitions, pe)
		}
		r.Topics = append(r.Topics, e)
	}
	return r
}

func (c *Cluster) dispatch(cx *reqCtx) {
	c.W.Note(func() string { return fmt.Sprintf("%s/%d node %d: %s", c.Name, cx.b.ID, cx.node, describe(cx.req)) })
	switch q := cx.req.(type) {
	case *kmsg.ApiVersionsRequest:
		cx.reply(c.apiVersions(cx.ver))
	case *kmsg.MetadataRequest:
		cx.reply(c.metadata(cx.b, cx.k.Lis, q))
	case *kmsg.CreateTopicsRequest:
		c.createTopics(cx, q)
	case *kmsg.DeleteTopicsRequest:
		r := kmsg.NewPtrDeleteTopicsResponse()
		for _, n := range q.TopicNames {
			n := n
			e := kmsg.NewDeleteTopicsResponseTopic()
			e.Topic = &n
			c.W.Trace("%s: topic %s deleted by node %d", c.Name, n, cx.node)
			c.Creations = append(c.Creations, "deleted:"+n)
			delete(c.topics, n)
			r.Topics = append(r.Topics, e)
		}
		cx.reply(r)
	case *kmsg.ProduceRequest:
		c.produce(cx, q)
	case *kmsg.FetchRequest:
		c.fetch(cx, q)
	case *kmsg.ListOffsetsRequest:
		c.listOffsets(cx, q)
	case *kmsg.OffsetForLeaderEpochRequest:
		c.epochOffsets(cx, q)
	case *kmsg.FindCoordinatorRequest:
		c.findCoordinator(cx, q)
	case *kmsg.InitProducerIDRequest:
		c.initPID(cx, q)
	case *kmsg.AddPartitionsToTxnRequest:
		c.addParts(cx, q)
	case *kmsg.EndTxnRequest:
		c.endTxn(cx, q)
	case *kmsg.JoinGroupRequest:
		c.joinGroup(cx, q)
	case *kmsg.SyncGroupRequest:
		c.syncGroup(cx, q)
	case *kmsg.HeartbeatRequest:
		c.heartbeat(cx, q)
	case *kmsg.DescribeGroupsRequest:
		c.describeGroups(cx, q)
	case *kmsg.LeaveGroupRequest:
		c.leaveGroup(cx, q)
	case *kmsg.OffsetFetchRequest:
		c.offsetFetch(cx, q)
	case *kmsg.OffsetCommitRequest:
		c.offsetCommit(cx, q)
	default:
		panic(fmt.Sprintf("simk: request %d not served", cx.key))
	}
}

func (c *Cluster) createTopics(cx *reqCtx, q *kmsg.CreateTopicsRequest) {
	r := kmsg.NewPtrCreateTopicsResponse()
	c.CreateCalls++
	for _, t := range q.Topics {
		e := kmsg.NewCreateTopicsResponseTopic()
		e.Topic = t.Topic
		cfg := map[string]string{}
		for _, x := range t.Configs {
			if x.Value != nil {
				cfg[x.Name] = *x.Value
			}
		}
		switch {
		case cx.b.ID != c.controller:
			e.ErrorCode = eNotController
		case t.Topic == "":
			e.ErrorCode = eInvalidTopic
		case c.topics[t.Topic] != nil:
			e.ErrorCode = eTopicExists
		case t.NumPartitions == 0 || t.NumPartitions < -1:
			e.ErrorCode = eInvalidPartitions
		case int(t.ReplicationFactor) > len(c.upBrokers()) || t.ReplicationFactor == 0 || t.ReplicationFactor < -1:
			e.ErrorCode = eInvalidRF
		case cfg["min.insync.replicas"] != "" && !(len(cfg["min.insync.replicas"]) == 1 && cfg["min.insync.replicas"] >= "1"):
			e.ErrorCode = eInvalidConfig
		case q.ValidateOnly:
		default:
			n, rf := int(t.NumPartitions), t.ReplicationFactor
			if n == -1 {
				n = 1
				if c.DefaultParts > 0 {
					n = c.DefaultParts
				}
			}
			if rf == -1 {
				rf = 1
			}
			x := c.CreateTopic(t.Topic, n, cfg, true, cx.node)
			x.RF = rf
		}
		r.Topics = append(r.Topics, e)
	}
	cx.reply(r)
}

// describe renders a request for a verbose trace.
func describe(req kmsg.Request) string {
	switch q := req.(type) {
	case *kmsg.ProduceRequest:
		o := "produce"
		for _, t := range q.Topics {
			for _, p := range t.Partitions {
				bs, _ := parseBatches(p.Records)
				for _, b := range bs {
					o += fmt.Sprintf(" %s/%d[pid %d.%d seq %d n %d]", t.Topic, p.Partition, b.pid, b.epoch, b.seq, len(b.recs))
				}
			}
		}
		return o
	case *kmsg.AddPartitionsToTxnRequest:
		o := fmt.Sprintf("addparts pid %d.%d", q.ProducerID, q.ProducerEpoch)
		for _, t := range q.Topics {
			o += fmt.Sprintf(" %s%v", t.Topic, t.Partitions)
		}
		return o
	case *kmsg.EndTxnRequest:
		return fmt.Sprintf("endtxn pid %d.%d commit %v", q.ProducerID, q.ProducerEpoch, q.Commit)
	case *kmsg.FetchRequest:
		o := "fetch"
		for _, t := range q.Topics {
			for _, p := range t.Partitions {
				o += fmt.Sprintf(" %s/%d@%d", t.Topic, p.Partition, p.FetchOffset)
			}
		}
		return o
	}
	return fmt.Sprintf("%T", req)
}
