#!/usr/bin/env python3
"""kgo_patch.py OUT  - copies the pinned franz-go v1.8.0 to OUT with six repairs applied.

1. franz-go 1.8.0 has a lost wakeup (the first of the two places was repaired upstream in a later
release): a fetch loop that finds no consumer session, or one that has just been stopped, resets its
state after the next session may already have asked it to run, and the source is then never fetched
again until something else wakes it. go-kafka-event-source pins 1.8.0, so
members can wedge for a reason that lies outside this repository. The simulations run the repaired
loop; see DESIGN.md, "Dependencies".

2. EndTransaction finds out whether there is anything to end by looking at the partitions of the
topics it produced to. When the metadata of a topic arrives, its first records are handed to the
broker goroutines before these partitions become visible there; if the records are flushed within
that window EndTransaction does nothing, reports success, and the transaction stays open. The
repaired copy waits for the window to close.

3. SetOffsets has no effect on a partition whose position is being validated against a new leader:
once the validation completes, the position from before SetOffsets is back. The state store consumer
seeks to the start of the change log with it. The repaired copy drops the pending validation of
partitions which are set.

4. Offsets which are to be loaded wait for the metadata update that was asked for just before. If
that update completes before the wait begins its signal is missed, and the partition is not consumed
until the next periodic metadata update (five minutes later with the default configuration). The
repaired copy prepares for the signal before it asks for the update.

5. Requests that wait for the brokers or for a coordinator to be looked up share one look-up, and with
it the error of whichever request started it. If that request is cancelled (a fetch, when its session
ends) a heartbeat is told context.Canceled, takes it that the client is closing, and the member leaves
group management for good without a word. The repaired copy looks them up again.

6. A batch whose first attempt was written, but not acknowledged, may be given up (its context ends, or
metadata cannot be loaded) once a later attempt was answered with an error. The next batch then has its
sequence numbers, is taken for the first by the broker, and reported as produced without being written.
The repaired copy gives a batch up only if no attempt can have been written.

The copy also has a seam: SimDialTLS replaces the dialer of the DialTLSConfig option (connections are in
memory and nothing is encrypted), and SimInspect tells what a list of options amounts to."""

import sys, os, shutil, subprocess
out = sys.argv[1]
cache = os.environ.get("GOMODCACHE") or subprocess.check_output([os.environ.get("GO", "go"), "env", "GOMODCACHE"], text=True).strip()
src = os.path.join(cache, "github.com/twmb/franz-go@v1.8.0")
if os.path.exists(out):
    shutil.rmtree(out)
shutil.copytree(src, out, ignore=shutil.ignore_patterns("examples", "docs", "*_test.go", "plugin", "kmsg", "kadm", "kbin_test*", "generate"))
subprocess.check_call(["chmod", "-R", "u+w", out])
p = os.path.join(out, "pkg/kgo/source.go")
s = open(p).read()

def sub(old, new):
    global s
    assert s.count(old) == 1
    s = s.replace(old, new)

again = """		s.fetchState.hardFinish()
		if consumer.loadSession() != session {
			s.maybeConsume()
		}
		return
"""
sub("""	if session == noConsumerSession {
		s.fetchState.hardFinish()
		return
""", "	if session == noConsumerSession {\n" + again)
sub("""	// also being selected.
	select {
	case <-session.ctx.Done():
		s.fetchState.hardFinish()
		return
""", """	// also being selected.
	select {
	case <-session.ctx.Done():
""" + again)
open(p, "w").write(s)

p = os.path.join(out, "pkg/kgo/txn.go")
s = open(p).read()
sub("""	// After the flush, no records are being produced to, and we can set
	// addedToTxn to false outside of any mutex.
""", """	cl.producer.unknownTopicsMu.Lock() // a metadata update may be about to store the partitions it loaded
	cl.producer.unknownTopicsMu.Unlock() //lint:ignore SA2001 only waiting
""")
open(p, "w").write(s)

p = os.path.join(out, "pkg/kgo/consumer.go")
s = open(p).read()
sub("""	if how == assignWithoutInvalidating {
		// Guarding""", """	setDirectly := make(map[string]map[int32]bool)
	if how == assignWithoutInvalidating {
		// Guarding""")
sub("""								lastConsumedEpoch: assignPart.epoch,
							})
""", """								lastConsumedEpoch: assignPart.epoch,
							})
							usedCursor.allowUsable()
							if setDirectly[usedCursor.topic] == nil {
								setDirectly[usedCursor.topic] = make(map[int32]bool)
							}
							setDirectly[usedCursor.topic][usedCursor.partition] = true
""")
sub("""			// We had not yet loaded this partition, so there is
			// nothing to set, and we keep everything.
""", """			// We keep what is not set.
			loadOffsets.keepFilter(func(t string, p int32) bool { return !setDirectly[t][p] })
""")
sub("""	wait := true
	if immediate {
		s.c.cl.triggerUpdateMetadataNow(why)
	} else {
		wait = s.c.cl.triggerUpdateMetadata(false, why) // avoid trigger if within refresh interval
	}

	s.listOrEpochMu.Lock() // collapse any listOrEpochs that occur during meta update into one
	if !s.listOrEpochLoadsWaiting.isEmpty() {
		s.listOrEpochLoadsWaiting.mergeFrom(waiting)
		s.listOrEpochMu.Unlock()
		return
	}
	s.listOrEpochLoadsWaiting = waiting
	s.listOrEpochMetaCh = make(chan struct{}, 1)
	s.listOrEpochMu.Unlock()
""", """	s.listOrEpochMu.Lock() // collapse any listOrEpochs that occur during meta update into one
	merged := !s.listOrEpochLoadsWaiting.isEmpty()
	if merged {
		s.listOrEpochLoadsWaiting.mergeFrom(waiting)
	} else {
		s.listOrEpochLoadsWaiting = waiting
		s.listOrEpochMetaCh = make(chan struct{}, 1)
	}
	s.listOrEpochMu.Unlock()

	wait := true
	if immediate {
		s.c.cl.triggerUpdateMetadataNow(why)
	} else {
		wait = s.c.cl.triggerUpdateMetadata(false, why) // avoid trigger if within refresh interval
	}
	if merged {
		return
	}
""")
open(p, "w").write(s)

p = os.path.join(out, "pkg/kgo/client.go")
s = open(p).read()
sub("""		<-wait.done
		return wait.err
	}
	wait = &struct {
		done chan struct{}
		err  error
	}{done: make(chan struct{})}
	cl.fetchingBrokers = wait
""", """		<-wait.done
		if errors.Is(wait.err, context.Canceled) && ctx.Err() == nil && cl.ctx.Err() == nil {
			return cl.fetchBrokerMetadata(ctx) // it was not this request that was cancelled
		}
		return wait.err
	}
	wait = &struct {
		done chan struct{}
		err  error
	}{done: make(chan struct{})}
	cl.fetchingBrokers = wait
""")
sub("""		<-c.done
		if c.err != nil {
			return nil, c.err
		}
""", """		<-c.done
		if errors.Is(c.err, context.Canceled) && ctx.Err() == nil && cl.ctx.Err() == nil {
			cl.deleteStaleCoordinatorIfEqual(key, c)
			goto start
		}
		if c.err != nil {
			return nil, c.err
		}
""")
open(p, "w").write(s)

p = os.path.join(out, "pkg/kgo/sink.go")
s = open(p).read()
sub("""	batch.canFailFromLoadErrs = true

	err := kerr.ErrorForCode(errorCode)
""", """	batch.canFailFromLoadErrs = batch.tries <= 1 && errorCode != kerr.RequestTimedOut.Code && errorCode != kerr.NotEnoughReplicasAfterAppend.Code

	err := kerr.ErrorForCode(errorCode)
""")
sub("	failUnknown := batch.owner.checkUnknownFailLimit(err)\n", "	failUnknown := batch.owner.checkUnknownFailLimit(err) && batch.canFailFromLoadErrs\n")
sub("		if canFail || s.cl.cfg.disableIdempotency {", "		if canFail && batch.canFailFromLoadErrs || s.cl.cfg.disableIdempotency {")
open(p, "w").write(s)

p = os.path.join(out, "pkg/kgo/config.go")
s = open(p).read()
sub("""	return Dialer(func(ctx context.Context, network, host string) (net.Conn, error) {
		c := c.Clone()
""", """	return Dialer(func(ctx context.Context, network, host string) (net.Conn, error) {
		if SimDialTLS != nil {
			return SimDialTLS(ctx, network, host, c)
		}
		c := c.Clone()
""")
open(p, "w").write(s)
with open(os.path.join(out, "pkg/kgo/sim.go"), "w") as f:
    f.write("""package kgo

import (
	"context"
	"crypto/tls"
	"net"
)

// SimDialTLS, if set, is how DialTLSConfig dials.
var SimDialTLS func(ctx context.Context, network, host string, c *tls.Config) (net.Conn, error)

// SimConfig is what a client made with some options would do.
type SimConfig struct {
	Seeds    []string
	Mechs    []string
	ClientID string
	Dial     func(context.Context, string, string) (net.Conn, error)
}

func SimInspect(opts ...Opt) (sc SimConfig) {
	c := defaultCfg()
	for _, o := range opts {
		o.apply(&c)
	}
	sc.Seeds = append(sc.Seeds, c.seedBrokers...)
	for _, m := range c.sasls {
		sc.Mechs = append(sc.Mechs, m.Name())
	}
	if c.id != nil {
		sc.ClientID = *c.id
	}
	sc.Dial = c.dialFn
	return
}

// SimClientID is the client id of a client.
func (cl *Client) SimClientID() string {
	if cl.cfg.id == nil {
		return ""
	}
	return *cl.cfg.id
}
""")
