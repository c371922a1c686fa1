package simk

import (
	"fmt"

	"github.com/twmb/franz-go/pkg/kmsg"
)

const (
	gsEmpty = iota
	gsPreparing
	gsCompleting
	gsStable
)

type member struct {
	id        string
	node      int32
	protos    []kmsg.JoinGroupRequestProtocol
	session   int64
	rebalance int64
	join      *reqCtx
	sync      *reqCtx
	assign    []byte
	deadline  int64
	order     int
	timerOn   bool
	joinedAt  int64
}

// GenMember is one member of one generation.
type GenMember struct {
	ID       string
	Node     int32
	Meta     []byte
	Raw      []byte
	Assigned map[string][]int32
}

// Gen is one generation of a group.
type Gen struct {
	Gen      int32
	At       int64 // join completed
	SyncAt   int64 // assignments known (0: never)
	Leader   string
	Protocol string
	Members  []*GenMember
}

// GroupEvent is a membership change.
type GroupEvent struct {
	At     int64
	Kind   string // join, leave, expired, missed
	Member string
	Node   int32
	Gen    int32
}

type Group struct {
	c       *Cluster
	Name    string
	coord   int32
	loadTil int64
	state   int
	gen     int32
	members map[string]*member
	ids     []string
	pending map[string]bool
	leader  string
	proto   string
	epoch   int // rebalance round, invalidates timers
	Gens    []*Gen
	Events  []GroupEvent
	OnGen   func(*Gen)
	OnEvent func(GroupEvent)
	// committed offsets by topic and partition
	Offsets  map[string]map[int32]int64
	OnCommit func(node int32, topic string, part int32, off int64)
}

// SetOffset stores a committed offset.
func (g *Group) SetOffset(topic string, part int32, off int64) {
	if g.Offsets == nil {
		g.Offsets = map[string]map[int32]int64{}
	}
	if g.Offsets[topic] == nil {
		g.Offsets[topic] = map[int32]int64{}
	}
	g.Offsets[topic][part] = off
}

func (c *Cluster) offsetFetch(cx *reqCtx, q *kmsg.OffsetFetchRequest) {
	g := c.group(q.Group)
	code := g.check(cx)
	r := kmsg.NewPtrOffsetFetchResponse()
	r.ErrorCode = code
	for _, t := range q.Topics {
		e := kmsg.NewOffsetFetchResponseTopic()
		e.Topic = t.Topic
		for _, p := range t.Partitions {
			pe := kmsg.NewOffsetFetchResponseTopicPartition()
			pe.Partition, pe.Offset = p, -1
			if off, ok := g.Offsets[t.Topic][p]; ok && code == 0 {
				pe.Offset = off
			}
			pe.ErrorCode = code
			e.Partitions = append(e.Partitions, pe)
		}
		r.Topics = append(r.Topics, e)
	}
	cx.reply(r)
}

func (c *Cluster) offsetCommit(cx *reqCtx, q *kmsg.OffsetCommitRequest) {
	g := c.group(q.Group)
	code := g.check(cx)
	m := g.members[q.MemberID]
	switch {
	case code != 0:
	case m == nil:
		code = eUnknownMember
	case q.Generation != g.gen:
		code = eIllegalGeneration
	case g.state == gsCompleting:
		code = eRebalance
	default:
		g.touch(m)
	}
	r := kmsg.NewPtrOffsetCommitResponse()
	for _, t := range q.Topics {
		e := kmsg.NewOffsetCommitResponseTopic()
		e.Topic = t.Topic
		for _, p := range t.Partitions {
			pe := kmsg.NewOffsetCommitResponseTopicPartition()
			pe.Partition = p.Partition
			pe.ErrorCode = code
			e.Partitions = append(e.Partitions, pe)
			if code == 0 {
				if g.OnCommit != nil {
					g.OnCommit(m.node, t.Topic, p.Partition, p.Offset)
				}
				g.SetOffset(t.Topic, p.Partition, p.Offset)
			}
		}
		r.Topics = append(r.Topics, e)
	}
	cx.reply(r)
}

// Settled: the members of the last generation are still there, and nobody else.
func (g *Group) Settled() bool {
	if len(g.Gens) == 0 {
		return true
	}
	x := g.Gens[len(g.Gens)-1]
	for _, m := range x.Members {
		if g.members[m.ID] == nil {
			return false
		}
	}
	return len(x.Members) == len(g.members)
}

func (c *Cluster) group(name string) *Group {
	g := c.groups[name]
	if g == nil {
		g = &Group{c: c, Name: name, coord: c.randUp(), members: map[string]*member{}, pending: map[string]bool{}}
		c.groups[name] = g
	}
	return g
}

// Group returns a consumer group (created when new).
func (c *Cluster) Group(name string) *Group { return c.group(name) }

func (g *Group) event(kind string, m *member) {
	e := GroupEvent{g.c.W.Now(), kind, m.id, m.node, g.gen}
	g.Events = append(g.Events, e)
	g.c.W.Trace("%s: group member %s node %d %s (gen %d)", g.c.Name, m.id, m.node, kind, g.gen)
	if g.OnEvent != nil {
		g.OnEvent(e)
	}
}

func (g *Group) check(cx *reqCtx) int16 {
	if g.coord != cx.b.ID {
		return eNotCoordinator
	}
	if g.loadTil > g.c.W.Now() {
		return eCoordLoading
	}
	return 0
}

// failPending answers the waiting joins and syncs when the coordinator moves.
func (g *Group) failPending() {
	for _, id := range g.ids {
		m := g.members[id]
		for _, cx := range []*reqCtx{m.join, m.sync} {
			if cx != nil {
				cx.reply(errResponse(cx, eNotCoordinator))
			}
		}
		m.join, m.sync = nil, nil
		g.touch(m)
	}
	if g.state == gsPreparing {
		g.armRebalance()
	}
}

func (g *Group) touch(m *member) {
	m.deadline = g.c.W.Now() + m.session
	if !m.timerOn {
		m.timerOn = true
		g.arm(m)
	}
}

func (g *Group) arm(m *member) {
	g.c.W.At(m.deadline, func() {
		if g.members[m.id] != m {
			return
		}
		if m.join != nil || m.sync != nil {
			m.deadline = g.c.W.Now() + m.session
		}
		if g.c.W.Now() < m.deadline {
			g.arm(m)
			return
		}
		if b := g.c.broker(g.coord); b == nil || b.down || b.stalledUntil > g.c.W.Now() || g.loadTil > g.c.W.Now() {
			m.deadline = g.c.W.Now() + m.session
			g.arm(m)
			return
		}
		g.c.Faults["session-expired"]++
		g.remove(m, "expired")
	})
}

func (g *Group) remove(m *member, why string) {
	delete(g.members, m.id)
	for i, id := range g.ids {
		if id == m.id {
			g.ids = append(g.ids[:i:i], g.ids[i+1:]...)
			break
		}
	}
	for _, cx := range []*reqCtx{m.join, m.sync} {
		if cx != nil {
			cx.reply(errResponse(cx, eUnknownMember))
		}
	}
	m.join, m.sync = nil, nil
	g.event(why, m)
	if g.leader == m.id {
		g.leader = ""
	}
	switch g.state {
	case gsStable, gsCompleting:
		g.prepare()
	case gsPreparing:
		g.maybeComplete()
	}
	if len(g.members) == 0 {
		g.state = gsEmpty
		g.epoch++
	}
}

func (g *Group) prepare() {
	for _, id := range g.ids {
		if m := g.members[id]; m.sync != nil {
			m.sync.reply(errResponse(m.sync, eRebalance))
			m.sync = nil
			g.touch(m)
		}
	}
	first := g.state == gsEmpty
	g.state = gsPreparing
	g.epoch++
	if first && g.c.JoinDelay > 0 {
		ep := g.epoch
		g.c.W.After(g.c.JoinDelay, func() {
			if g.epoch == ep && g.state == gsPreparing {
				g.complete()
			}
		})
		return
	}
	g.armRebalance()
	g.maybeComplete()
}

func (g *Group) armRebalance() {
	ep := g.epoch
	var d int64
	for _, id := range g.ids {
		if m := g.members[id]; m.rebalance > d {
			d = m.rebalance
		}
	}
	g.c.W.After(d, func() {
		if g.epoch == ep && g.state == gsPreparing {
			for _, id := range append([]string(nil), g.ids...) {
				if m := g.members[id]; m != nil && m.join == nil && g.state == gsPreparing {
					g.c.Faults["rebalance-missed"]++
					g.remove(m, "missed")
				}
			}
			if g.epoch == ep && g.state == gsPreparing {
				g.complete()
			}
		}
	})
}

func (g *Group) maybeComplete() {
	if g.state != gsPreparing || len(g.members) == 0 || len(g.pending) > 0 {
		return
	}
	if len(g.Gens) == 0 && g.c.JoinDelay > 0 {
		return
	}
	for _, id := range g.ids {
		if g.members[id].join == nil {
			return
		}
	}
	ep := g.epoch
	g.c.W.After(0, func() {
		if g.epoch == ep && g.state == gsPreparing {
			for _, id := range g.ids {
				if g.members[id].join == nil {
					return
				}
			}
			g.complete()
		}
	})
}

func (g *Group) complete() {
	if len(g.members) == 0 {
		g.state = gsEmpty
		return
	}
	g.gen++
	g.epoch++
	g.state = gsCompleting
	if g.members[g.leader] == nil {
		g.leader = g.ids[0]
	}
	// the first protocol of the leader that every member supports
	g.proto = ""
	for _, p := range g.members[g.leader].protos {
		all := true
		for _, id := range g.ids {
			ok := false
			for _, q := range g.members[id].protos {
				ok = ok || q.Name == p.Name
			}
			all = all && ok
		}
		if all {
			g.proto = p.Name
			break
		}
	}
	gen := &Gen{Gen: g.gen, At: g.c.W.Now(), Leader: g.leader, Protocol: g.proto}
	g.Gens = append(g.Gens, gen)
	g.c.W.Trace("%s: group %s generation %d, %d members", g.c.Name, g.Name, g.gen, len(g.ids))
	var all []kmsg.JoinGroupResponseMember
	for _, id := range g.ids {
		m := g.members[id]
		m.assign = nil
		e := kmsg.NewJoinGroupResponseMember()
		e.MemberID = id
		e.ProtocolMetadata = m.meta(g.proto)
		all = append(all, e)
		gen.Members = append(gen.Members, &GenMember{ID: id, Node: m.node, Meta: m.meta(g.proto)})
	}
	for _, id := range append([]string(nil), g.ids...) {
		m := g.members[id]
		if m.join != nil {
			g.replyJoin(m.join, m, all)
			m.join = nil
		}
		g.touch(m)
	}
}

func (m *member) meta(proto string) []byte {
	for _, p := range m.protos {
		if p.Name == proto {
			return p.Metadata
		}
	}
	return nil
}

func (g *Group) replyJoin(cx *reqCtx, m *member, all []kmsg.JoinGroupResponseMember) {
	r := kmsg.NewPtrJoinGroupResponse()
	r.Generation, r.LeaderID, r.MemberID = g.gen, g.leader, m.id
	p := g.proto
	r.Protocol = &p
	if m.id == g.leader {
		r.Members = all
	}
	cx.reply(r)
}

func (c *Cluster) joinGroup(cx *reqCtx, q *kmsg.JoinGroupRequest) {
	g := c.group(q.Group)
	fail := func(code int16) { cx.reply(errResponse(cx, code)) }
	if e := g.check(cx); e != 0 {
		fail(e)
		return
	}
	if q.MemberID == "" {
		c.nextMember++
		id := fmt.Sprintf("m%d-n%d", c.nextMember, cx.node)
		if cx.ver >= 4 {
			g.pending[id] = true
			c.W.After(int64(q.SessionTimeoutMillis)*1e6, func() {
				if g.pending[id] {
					delete(g.pending, id)
					g.maybeComplete()
				}
			})
			r := errResponse(cx, eMemberIDRequired).(*kmsg.JoinGroupResponse)
			r.MemberID = id
			cx.reply(r)
			return
		}
		q.MemberID = id
		g.pending[id] = true
	}
	m := g.members[q.MemberID]
	isNew := m == nil
	if isNew {
		if !g.pending[q.MemberID] {
			fail(eUnknownMember)
			return
		}
		delete(g.pending, q.MemberID)
		c.nextMember++
		m = &member{id: q.MemberID, order: c.nextMember, joinedAt: c.W.Now()}
		g.members[m.id] = m
		g.ids = append(g.ids, m.id)
	}
	same := !isNew && len(m.protos) == len(q.Protocols)
	if same {
		for i := range q.Protocols {
			same = same && m.protos[i].Name == q.Protocols[i].Name && string(m.protos[i].Metadata) == string(q.Protocols[i].Metadata)
		}
	}
	m.node = cx.node
	m.protos = q.Protocols
	m.session = int64(q.SessionTimeoutMillis) * 1e6
	m.rebalance = int64(q.RebalanceTimeoutMillis) * 1e6
	if m.join != nil {
		// an older join of the same member: its client is gone
		fail2 := m.join
		m.join = nil
		fail2.reply(errResponse(fail2, eUnknownMember))
	}
	if isNew {
		g.event("join", m)
	}
	if !isNew && same && ((g.state == gsCompleting) || (g.state == gsStable && m.id != g.leader)) {
		g.touch(m)
		var all []kmsg.JoinGroupResponseMember
		for _, id := range g.ids {
			e := kmsg.NewJoinGroupResponseMember()
			e.MemberID, e.ProtocolMetadata = id, g.members[id].meta(g.proto)
			all = append(all, e)
		}
		g.replyJoin(cx, m, all)
		return
	}
	m.join = cx
	g.touch(m)
	if g.state == gsPreparing {
		g.maybeComplete()
	} else {
		g.prepare()
	}
}

func (c *Cluster) syncGroup(cx *reqCtx, q *kmsg.SyncGroupRequest) {
	g := c.group(q.Group)
	m := g.members[q.MemberID]
	code := g.check(cx)
	switch {
	case code != 0:
	case m == nil:
		code = eUnknownMember
	case q.Generation != g.gen:
		code = eIllegalGeneration
	case g.state == gsPreparing:
		code = eRebalance
	case g.state == gsEmpty:
		code = eUnknownMember
	}
	if code != 0 {
		cx.reply(errResponse(cx, code))
		return
	}
	g.touch(m)
	if g.state == gsStable {
		r := kmsg.NewPtrSyncGroupResponse()
		r.MemberAssignment = m.assign
		cx.reply(r)
		return
	}
	if m.sync != nil {
		old := m.sync
		m.sync = nil
		old.reply(errResponse(old, eRebalance))
	}
	m.sync = cx
	if m.id != g.leader {
		return
	}
	gen := g.Gens[len(g.Gens)-1]
	gen.SyncAt = c.W.Now()
	for _, a := range q.GroupAssignment {
		if x := g.members[a.MemberID]; x != nil {
			x.assign = a.MemberAssignment
		}
	}
	for _, gm := range gen.Members {
		if x := g.members[gm.ID]; x != nil {
			gm.Raw = x.assign
			gm.Assigned = parseAssignment(x.assign)
			c.W.Trace("%s: gen %d member %s node %d assigned %v", c.Name, gen.Gen, gm.ID, gm.Node, gm.Assigned)
		}
	}
	g.state = gsStable
	g.epoch++
	if g.OnGen != nil {
		g.OnGen(gen)
	}
	for _, id := range append([]string(nil), g.ids...) {
		x := g.members[id]
		if x.sync != nil {
			r := kmsg.NewPtrSyncGroupResponse()
			r.MemberAssignment = x.assign
			s := x.sync
			x.sync = nil
			s.reply(r)
			g.touch(x)
		}
	}
}

func parseAssignment(raw []byte) map[string][]int32 {
	out := map[string][]int32{}
	if len(raw) == 0 {
		return out
	}
	var a kmsg.ConsumerMemberAssignment
	if err := a.ReadFrom(raw); err != nil {
		return out
	}
	for _, t := range a.Topics {
		out[t.Topic] = append(out[t.Topic], t.Partitions...)
	}
	return out
}

func (c *Cluster) heartbeat(cx *reqCtx, q *kmsg.HeartbeatRequest) {
	g := c.group(q.Group)
	m := g.members[q.MemberID]
	code := g.check(cx)
	switch {
	case code != 0:
	case m == nil || g.state == gsEmpty:
		code = eUnknownMember
	case q.Generation != g.gen:
		code = eIllegalGeneration
	case g.state == gsPreparing:
		g.touch(m)
		code = eRebalance
	default:
		g.touch(m)
	}
	cx.reply(errResponse(cx, code))
}

func (c *Cluster) leaveGroup(cx *reqCtx, q *kmsg.LeaveGroupRequest) {
	g := c.group(q.Group)
	code := g.check(cx)
	if code == 0 {
		if m := g.members[q.MemberID]; m != nil {
			g.remove(m, "leave")
		} else if g.pending[q.MemberID] {
			delete(g.pending, q.MemberID)
			g.maybeComplete()
		} else {
			code = eUnknownMember
		}
	}
	cx.reply(errResponse(cx, code))
}

// Described is what a node was told about a group the first time.
type Described struct {
	At       int64
	Protocol string
}

func (c *Cluster) describeGroups(cx *reqCtx, q *kmsg.DescribeGroupsRequest) {
	r := kmsg.NewPtrDescribeGroupsResponse()
	for _, n := range q.Groups {
		e := kmsg.NewDescribeGroupsResponseGroup()
		e.Group = n
		g := c.group(n)
		if e.ErrorCode = g.check(cx); e.ErrorCode == 0 {
			e.State = []string{"Empty", "PreparingRebalance", "CompletingRebalance", "Stable"}[g.state]
			e.ProtocolType = "consumer"
			if g.state == gsStable {
				e.Protocol = g.proto
			}
			if c.Described[cx.node] == nil {
				c.Described[cx.node] = &Described{c.W.Now(), e.Protocol}
			}
			for _, id := range g.ids {
				m := g.members[id]
				em := kmsg.NewDescribeGroupsResponseGroupMember()
				em.MemberID, em.ClientID = id, "sim"
				if g.state == gsStable {
					em.ProtocolMetadata, em.MemberAssignment = m.meta(g.proto), m.assign
				}
				e.Members = append(e.Members, em)
			}
		}
		r.Groups = append(r.Groups, e)
	}
	cx.reply(r)
}
