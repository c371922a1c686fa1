package simk

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"syscall"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// Conn is the client's side of an in-memory connection to a broker.
type Conn struct {
	c     *Cluster
	b     *Broker
	id    int
	Node  int32
	rbuf  []byte
	rsig  chan struct{}
	wbuf  []byte
	lclos bool
	rclos error // set when the broker side is gone
	rdl   time.Time

	inq      [][]byte // frames delivered to the broker, waiting for their turn
	busy     bool
	lastIn   int64 // delivery times are monotone per direction
	lastOut  int64
	heldIn   [][]byte // frames stuck behind a partition
	heldOut  [][]byte
	heldGone bool

	// of a listener with logins
	Lis         *Listener
	DialAt      int64
	HandshakeAt int64 // last login began
	Data        any   // the listener's
	tls         bool
	mech        string
	step        int
	authed      bool
	authEnd     int64
}

// Listener is a way to reach the brokers: an endpoint kind with its own addresses and way of logging in.
type Listener struct {
	Name  string
	Host  func(id int32) string
	Port  int
	TLS   bool
	Mechs []string // empty: no login
	// Login judges one message of a login. lifetime (ms) of the session: 0 unlimited.
	Login func(k *Conn, mech string, step int, msg []byte) (reply []byte, done bool, lifetime int64, err error)
	// Bad is told about a client that does not do what the listener expects.
	Bad func(k *Conn, why string)
}

func (l *Listener) addr(id int32) string { return fmt.Sprintf("%s:%d", l.Host(id), l.Port) }

func (k *Conn) host() (string, int) {
	if k.Lis != nil {
		return k.Lis.Host(k.b.ID), k.Lis.Port
	}
	return fmt.Sprintf("%s-b%d", k.c.Name, k.b.ID), 9092
}

func (k *Conn) Broker() int32 { return k.b.ID }
func (k *Conn) ID() int       { return k.id }

// Dial connects in the clear, DialTLS as a client that speaks TLS (there is no encryption, only the question who expects it).
func (c *Cluster) Dial(ctx context.Context, network, host string) (net.Conn, error) {
	return c.dial(ctx, network, host)
}

func (c *Cluster) DialTLS(ctx context.Context, network, host string) (net.Conn, error) {
	n, err := c.dial(ctx, network, host)
	if err == nil {
		n.(*Conn).tls = true
	}
	return n, err
}

// login serves SASL requests; false if the request is not for it and the connection may go on.
func (c *Cluster) login(cx *reqCtx) bool {
	k, l := cx.k, cx.k.Lis
	if l == nil {
		return false
	}
	bad := func(why string) bool {
		if l.Bad != nil {
			l.Bad(k, why)
		}
		c.reset(k, why)
		return true
	}
	if k.tls != l.TLS {
		return bad(fmt.Sprintf("client speaks TLS: %v, listener %s: %v", k.tls, l.Name, l.TLS))
	}
	if len(l.Mechs) == 0 {
		if cx.key == 17 || cx.key == 36 {
			return bad("login where there is none")
		}
		return false
	}
	switch q := cx.req.(type) {
	case *kmsg.ApiVersionsRequest:
		return false
	case *kmsg.SASLHandshakeRequest:
		r := kmsg.NewPtrSASLHandshakeResponse()
		r.SupportedMechanisms = l.Mechs
		ok := false
		for _, m := range l.Mechs {
			ok = ok || m == q.Mechanism
		}
		if !ok {
			if l.Bad != nil {
				l.Bad(k, "mechanism "+q.Mechanism+" on listener "+l.Name)
			}
			r.ErrorCode = 33
		}
		k.mech, k.step, k.HandshakeAt, k.Data = q.Mechanism, 0, c.W.Now(), nil
		cx.reply(r)
	case *kmsg.SASLAuthenticateRequest:
		if k.mech == "" {
			return bad("authentication without a handshake")
		}
		r := kmsg.NewPtrSASLAuthenticateResponse()
		reply, done, life, err := l.Login(k, k.mech, k.step, q.SASLAuthBytes)
		k.step++
		if err != nil {
			m := err.Error()
			r.ErrorCode, r.ErrorMessage = 58, &m
			k.mech, k.authed = "", false
		} else {
			r.SASLAuthBytes = reply
			if done {
				r.SessionLifetimeMillis = life
				k.mech, k.authed, k.authEnd = "", true, 0
				if life > 0 {
					k.authEnd = c.W.Now() + life*1e6
				}
			}
		}
		cx.reply(r)
	default:
		if !k.authed {
			return bad(fmt.Sprintf("request %d before login", cx.key))
		}
		if k.authEnd > 0 && c.W.Now() > k.authEnd {
			c.reset(k, "session expired")
			return true
		}
		return false
	}
	return true
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simTimeout struct{}

func (simTimeout) Error() string   { return "i/o timeout" }
func (simTimeout) Timeout() bool   { return true }
func (simTimeout) Temporary() bool { return true }
func (simTimeout) Is(e error) bool { return e == os.ErrDeadlineExceeded }

func (k *Conn) poke() {
	select {
	case k.rsig <- struct{}{}:
	default:
	}
}

func (k *Conn) Read(p []byte) (int, error) {
	for {
		var n int
		var err error
		var wait time.Duration = -1
		Atomic(func() {
			switch {
			case k.lclos:
				err = net.ErrClosed
			case len(k.rbuf) > 0:
				n = copy(p, k.rbuf)
				k.rbuf = k.rbuf[n:]
			case k.rclos != nil:
				err = k.rclos
				k.noticed()
			case !k.rdl.IsZero():
				d := time.Until(k.rdl)
				if d <= 0 {
					err = &net.OpError{Op: "read", Net: "tcp", Err: simTimeout{}}
				} else {
					wait = d
				}
			}
		})
		if n > 0 || err != nil || len(p) == 0 {
			return n, err
		}
		if wait > 0 {
			t := time.NewTimer(wait)
			select {
			case <-k.rsig:
			case <-t.C:
			}
			t.Stop()
		} else {
			<-k.rsig
		}
	}
}

// noticed: the client finds out that the connection is gone, it will back off and connect again
func (k *Conn) noticed() {
	if n := k.Node; n >= 0 && int(n) < len(k.c.SetupAt) {
		k.c.SetupAt[n] = k.c.W.Now()
	}
}

func (k *Conn) Write(p []byte) (int, error) {
	var err error
	Atomic(func() {
		if k.lclos {
			err = net.ErrClosed
			return
		}
		if k.rclos != nil {
			err = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
			k.noticed()
			return
		}
		k.wbuf = append(k.wbuf, p...)
		for len(k.wbuf) >= 4 {
			n := int(binary.BigEndian.Uint32(k.wbuf))
			if len(k.wbuf) < 4+n {
				break
			}
			frame := append([]byte(nil), k.wbuf[4:4+n]...)
			k.wbuf = k.wbuf[4+n:]
			k.c.sendIn(k, frame)
		}
	})
	if err != nil {
		return 0, err
	}
	return len(p), nil
}

func (k *Conn) Close() error {
	Atomic(func() {
		if k.lclos {
			return
		}
		k.lclos = true
		k.c.W.After(k.c.latency(), func() { k.c.clientClosed(k) })
		k.poke()
	})
	return nil
}

func (k *Conn) LocalAddr() net.Addr { return simAddr(fmt.Sprintf("node%d", k.Node)) }
func (k *Conn) RemoteAddr() net.Addr {
	h, p := k.host()
	return simAddr(fmt.Sprintf("%s:%d", h, p))
}
func (k *Conn) SetDeadline(t time.Time) error {
	k.SetReadDeadline(t)
	return nil
}
func (k *Conn) SetReadDeadline(t time.Time) error {
	Atomic(func() { k.rdl = t; k.poke() })
	return nil
}
func (k *Conn) SetWriteDeadline(t time.Time) error { return nil }

// reset breaks the connection as seen by both sides.
func (c *Cluster) reset(k *Conn, why string) {
	if k.rclos != nil || k.lclos {
		return
	}
	c.W.Trace("net: reset conn %d node %d broker %d (%s)", k.id, k.Node, k.b.ID, why)
	k.rclos = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	k.rbuf = nil
	k.inq, k.heldIn, k.heldOut = nil, nil, nil
	k.poke()
	delete(c.conns, k.id)
}

func (c *Cluster) shutdownConn(k *Conn) {
	if k.rclos == nil {
		k.rclos = io.EOF
		k.poke()
	}
	delete(c.conns, k.id)
}

func (c *Cluster) clientClosed(k *Conn) {
	k.inq = nil
	delete(c.conns, k.id)
}

func (c *Cluster) cut(node int32, b int32) bool {
	return c.cuts[[2]int32{node, b}] || c.cuts[[2]int32{node, -1}]
}

func (c *Cluster) sendIn(k *Conn, frame []byte) {
	at := c.W.Now() + c.latency()
	if at <= k.lastIn {
		at = k.lastIn + 1
	}
	k.lastIn = at
	c.W.At(at, func() { c.deliverIn(k, frame) })
}

func (c *Cluster) deliverIn(k *Conn, frame []byte) {
	if k.rclos != nil {
		return
	}
	if c.cut(k.Node, k.b.ID) || len(k.heldIn) > 0 {
		k.heldIn = append(k.heldIn, frame)
		return
	}
	if k.b.down {
		c.reset(k, "broker down")
		return
	}
	k.inq = append(k.inq, frame)
	c.pump(k)
}

// pump serves the next request of a connection; one at a time.
func (c *Cluster) pump(k *Conn) {
	if k.busy || len(k.inq) == 0 || k.rclos != nil {
		return
	}
	if k.b.stalledUntil > c.W.Now() {
		c.W.At(k.b.stalledUntil, func() { c.pump(k) })
		return
	}
	frame := k.inq[0]
	k.inq = k.inq[1:]
	k.busy = true
	c.serve(k, frame)
}

func (c *Cluster) sendOut(k *Conn, resp []byte, delay int64) {
	at := c.W.Now() + c.latency() + delay
	if at <= k.lastOut {
		at = k.lastOut + 1
	}
	k.lastOut = at
	c.W.At(at, func() { c.deliverOut(k, resp) })
}

func (c *Cluster) deliverOut(k *Conn, resp []byte) {
	if k.lclos || k.rclos != nil {
		return
	}
	if c.cut(k.Node, k.b.ID) || len(k.heldOut) > 0 {
		k.heldOut = append(k.heldOut, resp)
		return
	}
	k.rbuf = append(k.rbuf, resp...)
	k.poke()
}

// Cut separates a node from a broker (-1: all brokers). Bytes in flight are held back.
func (c *Cluster) Cut(node, b int32) {
	c.cuts[[2]int32{node, b}] = true
	c.W.Trace("net: cut node %d broker %d", node, b)
	c.Faults["partition"]++
}

// Heal ends a separation and delivers what was held back.
func (c *Cluster) Heal(node, b int32) {
	delete(c.cuts, [2]int32{node, b})
	c.W.Trace("net: heal node %d broker %d", node, b)
	for _, k := range c.sortedConns() {
		if k.Node != node || c.cut(k.Node, k.b.ID) {
			continue
		}
		in, out := k.heldIn, k.heldOut
		k.heldIn, k.heldOut = nil, nil
		for _, f := range in {
			if k.lclos && c.Rng.P(0.5) {
				continue // the sender gave up before the network came back
			}
			c.deliverIn(k, f)
		}
		for _, f := range out {
			c.deliverOut(k, f)
		}
	}
}

func (c *Cluster) HealAll() {
	clear(c.refuse)
	for len(c.cuts) > 0 {
		var best [2]int32
		first := true
		for k := range c.cuts {
			if first || k[0] < best[0] || (k[0] == best[0] && k[1] < best[1]) {
				best, first = k, false
			}
		}
		c.Heal(best[0], best[1])
	}
}

func (c *Cluster) sortedConns() []*Conn {
	var out []*Conn
	for i := 1; i <= c.nextConn; i++ {
		if k, ok := c.conns[i]; ok {
			out = append(out, k)
		}
	}
	return out
}

// NodeGone closes every connection of a crashed node, as the broker sees it.
func (c *Cluster) NodeGone(node int32) {
	for _, k := range c.sortedConns() {
		if k.Node == node {
			k.lclos = true
			c.clientClosed(k)
		}
	}
}

// ResetConns breaks every connection between a node (0: all) and a broker (-1: all).
func (c *Cluster) ResetConns(node, b int32) {
	n := 0
	for _, k := range c.sortedConns() {
		if (node == 0 || k.Node == node) && (b < 0 || k.b.ID == b) {
			c.reset(k, "fault")
			n++
		}
	}
	if n > 0 {
		c.Faults["conn-reset"] += n
	}
}

func (c *Cluster) dial(ctx context.Context, network, host string) (net.Conn, error) {
	node := runtime.SimNode()
	var b *Broker
	var lis *Listener
	for _, x := range c.brokers {
		if len(c.Listeners) == 0 && x.addr() == host {
			b = x
		}
		for _, l := range c.Listeners {
			if l.addr(x.ID) == host {
				b, lis = x, l
			}
		}
	}
	if b == nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: fmt.Errorf("no such host %s", host)}
	}
	var d int64
	Atomic(func() { d = c.latency() * 2 })
	deadline := time.Now().Add(10 * time.Second)
	time.Sleep(time.Duration(d))
	for {
		if err := ctx.Err(); err != nil {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: err}
		}
		cut := false
		var k *Conn
		var err error
		Atomic(func() {
			cut = c.cut(node, b.ID)
			if cut {
				return
			}
			if b.down || c.refuse[node] > 0 {
				if c.refuse[node] > 0 {
					c.refuse[node]--
					c.Faults["dial-refused"]++
				}
				err = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
				return
			}
			c.nextConn++
			k = &Conn{c: c, b: b, id: c.nextConn, Node: node, rsig: make(chan struct{}, 1), Lis: lis, DialAt: c.W.Now()}
			c.conns[k.id] = k
		})
		if !cut {
			if err != nil {
				return nil, err
			}
			return k, nil
		}
		if time.Now().After(deadline) {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: simTimeout{}}
		}
		t := time.NewTimer(50 * time.Millisecond)
		select {
		case <-ctx.Done():
			t.Stop()
		case <-t.C:
		}
	}
}

// Config makes the cluster usable as a streams.Cluster.
func (c *Cluster) Config() ([]kgo.Opt, error) {
	var err error
	Atomic(func() {
		if c.ConfigErr != nil {
			err = c.ConfigErr()
		}
	})
	if err != nil {
		return nil, err
	}
	var seeds []string
	for _, b := range c.brokers {
		seeds = append(seeds, b.addr())
	}
	opts := []kgo.Opt{kgo.SeedBrokers(seeds...), kgo.Dialer(c.dial)}
	return append(opts, c.ExtraOpts...), nil
}

var errShort = errors.New("short frame")

func (c *Cluster) serve(k *Conn, frame []byte) {
	if len(frame) < 8 {
		c.reset(k, "short frame")
		return
	}
	key := int16(binary.BigEndian.Uint16(frame))
	ver := int16(binary.BigEndian.Uint16(frame[2:]))
	corr := int32(binary.BigEndian.Uint32(frame[4:]))
	body := frame[8:]
	cl := int16(binary.BigEndian.Uint16(body))
	body = body[2:]
	if cl > 0 {
		body = body[cl:]
	}
	req := kmsg.RequestForKey(key)
	if req == nil {
		c.reset(k, "unknown key")
		return
	}
	cx := &reqCtx{c: c, k: k, b: k.b, node: k.Node, key: key, ver: ver, corr: corr, req: req}
	if key == 18 && ver > 3 {
		// unsupported ApiVersions version: answer v0
		cx.ver = 0
		resp := c.apiVersions(0)
		resp.ErrorCode = 35
		cx.reply(resp)
		return
	}
	if max, ok := maxVersions[key]; !ok || ver > max {
		c.W.Trace("unsupported request key %d version %d", key, ver)
		c.reset(k, "unsupported version")
		return
	}
	req.SetVersion(ver)
	if req.IsFlexible() {
		// skip the header's tags
		var n uint64
		n, body = uvar(body)
		for ; n > 0; n-- {
			_, body = uvar(body)
			var l uint64
			l, body = uvar(body)
			body = body[l:]
		}
	}
	if err := req.ReadFrom(body); err != nil {
		c.W.Trace("bad request key %d version %d: %v", key, ver, err)
		c.reset(k, "bad request")
		return
	}
	c.Requests[key]++
	if c.OnRequest != nil {
		c.OnRequest(k.Node, req)
	}
	switch key {
	case 3, 10, 18, 22:
		if n := k.Node; n >= 0 && int(n) < len(c.SetupAt) {
			c.SetupAt[n] = c.W.Now()
		}
	}
	c.applyRules(cx, func() {
		if !c.login(cx) {
			c.dispatch(cx)
		}
	})
}

func uvar(b []byte) (uint64, []byte) {
	v, n := binary.Uvarint(b)
	return v, b[n:]
}

type reqCtx struct {
	c         *Cluster
	k         *Conn
	b         *Broker
	node      int32
	key, ver  int16
	corr      int32
	req       kmsg.Request
	replied   bool
	dropResp  bool
	mute      bool
	respDelay int64
	errAfter  int16
	partErr   int16
	partPick  int
	onReply   func()
}

func (cx *reqCtx) reply(resp kmsg.Response) {
	if cx.replied {
		panic("simk: replied twice")
	}
	cx.replied = true
	if cx.errAfter != 0 {
		resp = errResponse(cx, cx.errAfter)
	}
	c := cx.c
	k := cx.k
	if cx.onReply != nil {
		cx.onReply()
	}
	if k.rclos != nil {
		return
	}
	if cx.dropResp {
		c.W.Trace("fault: lost response key %d node %d", cx.key, cx.node)
		c.reset(k, "lost response")
		return
	}
	if cx.mute {
		c.W.Trace("fault: no response key %d node %d", cx.key, cx.node)
		return // the connection stays busy: the client has to time out
	}
	if resp != nil {
		resp.SetVersion(cx.ver)
		out := make([]byte, 8, 256)
		binary.BigEndian.PutUint32(out[4:], uint32(cx.corr))
		if resp.IsFlexible() && cx.key != 18 {
			out = append(out, 0)
		}
		out = resp.AppendTo(out)
		binary.BigEndian.PutUint32(out, uint32(len(out)-4))
		c.sendOut(k, out, cx.respDelay)
	}
	k.busy = false
	c.W.After(0, func() { c.pump(k) })
}
