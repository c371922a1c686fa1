package mskc

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simk"

	"github.com/aws/aws-sdk-go-v2/aws"
)

// ---- the credential provider

// issued is a set of credentials the provider has handed out or will.
type issued struct {
	key, secret, token string
	from, until        int64 // the provider's current ones in between; until 0: still
	expires            int64 // 0: never
	revoked            int64 // refused by AWS from then on
}

type retrieval struct {
	goid       uint64
	node       int32
	start, end int64
	is         *issued
	err        error
}

var errProvider = errors.New("no credentials today")

// provider is the application's credential provider.
type provider struct {
	h     *H
	sets  []*issued
	calls []*retrieval
	fails int // calls which failed
}

func (p *provider) current() *issued { return p.sets[len(p.sets)-1] }

func (p *provider) rotate() {
	h := p.h
	now := h.r.W.Now()
	n := len(p.sets) + 1
	s := &issued{key: fmt.Sprintf("AKIA%04d", n), secret: fmt.Sprintf("secret/%d+%x", n, h.r.Rng.I63(1<<40)), from: now}
	if h.p.K("token") == 1 {
		s.token = fmt.Sprintf("tok%d/%x==", n, h.r.Rng.I63(1<<40))
	}
	if life := h.p.K("cred_life") * 1000; life > 0 {
		s.expires = now + life
	}
	if len(p.sets) > 0 {
		o := p.current()
		o.until = now
		if h.p.K("revoke") == 1 {
			o.revoked = now
		}
		if o.expires > now && h.p.K("cache") == 0 {
			o.expires = now + (o.expires-now)/2
		}
	}
	p.sets = append(p.sets, s)
	h.r.W.Trace("credentials %s are current, expire at %d ms", s.key, s.expires/1e6)
}

func (p *provider) Retrieve(ctx context.Context) (aws.Credentials, error) {
	h := p.h
	c := &retrieval{goid: runtime.SimGoid(), node: runtime.SimNode()}
	var d int64
	simk.Atomic(func() {
		c.start = h.r.W.Now()
		p.calls = append(p.calls, c)
		d = h.p.K("prov_delay") * 1000
		if h.on("provslow") {
			d += h.spellArg("provslow")
		}
	})
	if d > 0 {
		t := time.NewTimer(time.Duration(d))
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			simk.Atomic(func() { c.end, c.err = h.r.W.Now(), ctx.Err() })
			return aws.Credentials{}, ctx.Err()
		}
	}
	var out aws.Credentials
	simk.Atomic(func() {
		c.end = h.r.W.Now()
		if h.on("provfail") {
			c.err = errProvider
			p.fails++
			h.r.Fault("provider-failure")
			if h.p.K("prov_junk") == 1 {
				out = aws.Credentials{AccessKeyID: "JUNK", SecretAccessKey: "junk"}
			}
			return
		}
		if e := p.current().expires; e > 0 && e < c.end+1e9 {
			p.rotate()
		}
		s := p.current()
		c.is = s
		out = aws.Credentials{AccessKeyID: s.key, SecretAccessKey: s.secret, SessionToken: s.token, Source: "sim"}
		if s.expires > 0 {
			out.CanExpire, out.Expires = true, h.at(s.expires)
		}
	})
	return out, c.err
}

// at turns simulated nanoseconds into the time which the code sees.
func (h *H) at(ns int64) time.Time { return time.Unix(0, h.base+ns) }

// ---- the control plane

type reply struct {
	op    string // list or boot
	arn   string // of boot
	ok    bool
	why   string
	next  bool   // list: there are more pages
	hit   string // list: arn of the cluster by that name on this page
	boot  map[string]string
	noarn bool // list: the cluster is on this page without its arn
}

var modes = []string{"None", "MutualTLS", "SaslScram", "SaslIam", "PublicMutualTLS", "PublicSaslScram", "PublicSaslIam"}

var bootKeys = map[string]string{
	"None": "bootstrapBrokerString", "MutualTLS": "bootstrapBrokerStringTls", "SaslScram": "bootstrapBrokerStringSaslScram", "SaslIam": "bootstrapBrokerStringSaslIam",
	"PublicMutualTLS": "bootstrapBrokerStringPublicTls", "PublicSaslScram": "bootstrapBrokerStringPublicSaslScram", "PublicSaslIam": "bootstrapBrokerStringPublicSaslIam",
}

const clusterName = "orders"

func arnOf(name string) string {
	return "arn:aws:kafka:eu-west-1:111122223333:cluster/" + name + "/u-" + name
}

// Do is the HTTP client of the AWS SDK.
func (h *H) Do(req *http.Request) (*http.Response, error) {
	var d int64
	var kind string
	simk.Atomic(func() {
		d = 1e6 + h.r.Rng.I63(30e6)
		if h.on("awsslow") {
			d += h.spellArg("awsslow")
		}
	})
	op := "list"
	if strings.HasSuffix(req.URL.Path, "/bootstrap-brokers") {
		op = "boot"
	}
	for _, k := range []string{"awsdown", "aws500", "aws503", "aws429", "aws403", "awsjunk"} {
		simk.Atomic(func() {
			if kind == "" && h.on(k) && (h.spellStr(k) == "" || h.spellStr(k) == op) && h.r.Rng.P(0.8) {
				kind = k
			}
		})
	}
	time.Sleep(time.Duration(d))
	rep := &reply{op: op}
	node := runtime.SimNode()
	var body []byte
	status := 200
	var err error
	simk.Atomic(func() {
		g := runtime.SimGoid()
		defer func() {
			h.replies[g] = append(h.replies[g], rep)
			h.r.W.Trace("control plane: goroutine %d %s %s -> %d %s%v", g, req.Method, req.URL.RequestURI(), status, rep.why, err)
		}()
		h.nHTTP++
		if kind != "" {
			h.r.Fault(kind)
			rep.why = kind
			switch kind {
			case "awsdown":
				err = &url.Error{Op: "Get", URL: req.URL.String(), Err: syscall.ECONNRESET}
				return
			case "awsjunk":
				body = []byte(`<html>`)
			default:
				status, _ = strconv.Atoi(kind[3:])
				body = []byte(`{"message":"no","invalidParameter":"x"}`)
			}
			return
		}
		if w := h.signed(req); w != "" {
			status, rep.why, body = 403, w, []byte(`{"message":"`+w+`"}`)
			return
		}
		rep.ok = true
		out := map[string]any{}
		if op == "list" {
			h.list(req, rep, out)
		} else {
			p, _ := url.PathUnescape(strings.TrimSuffix(strings.TrimPrefix(req.URL.EscapedPath(), "/v1/clusters/"), "/bootstrap-brokers"))
			rep.arn = p
			rep.boot = map[string]string{}
			if !strings.HasPrefix(p, "arn:") || !h.clusterExists(p) {
				rep.ok, rep.why, status, out["message"] = false, "no such cluster", 404, "no such cluster"
			} else {
				for m, k := range bootKeys {
					if s, ok := h.bootString(p, m); ok {
						rep.boot[m] = s
						out[k] = s
						if m == h.mode && p == arnOf(clusterName) && s != "" {
							h.procs[node-1].good[s] = true
						}
					}
				}
			}
		}
		body, _ = json.Marshal(out)
	})
	if err != nil {
		return nil, err
	}
	hd := http.Header{"Content-Type": {"application/json"}}
	if status != 200 {
		hd.Set("X-Amzn-Errortype", map[int]string{403: "ForbiddenException", 404: "NotFoundException", 429: "TooManyRequestsException", 500: "InternalServerErrorException", 503: "ServiceUnavailableException"}[status])
	}
	return &http.Response{StatusCode: status, Status: strconv.Itoa(status), Header: hd, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

// signed judges the signature's credentials, not the signature: the SDK is not under test.
func (h *H) signed(req *http.Request) string {
	a := req.Header.Get("Authorization")
	_, a, ok := strings.Cut(a, "Credential=")
	key, _, _ := strings.Cut(a, "/")
	if !ok {
		return "not signed"
	}
	for _, s := range h.prov.sets {
		if s.key == key {
			if s.expires > 0 && s.expires < h.r.W.Now() || s.revoked > 0 && s.revoked < h.r.W.Now() {
				return "expired token"
			}
			return ""
		}
	}
	return "unknown key " + key
}

func (h *H) clusterExists(arn string) bool {
	for _, n := range h.clusters() {
		if arnOf(n) == arn {
			return true
		}
	}
	return false
}

// clusters lists the names of the account's clusters, in the order the control plane has them.
func (h *H) clusters() []string {
	var out []string
	for i, n := range []string{"orders-eu", "orders2", "orders", "orders-dr", "payments", "order"} {
		if n == clusterName {
			if h.exists {
				out = append(out, n)
			}
		} else if h.p.K("others")>>i&1 == 1 {
			out = append(out, n)
		}
	}
	return out
}

func (h *H) list(req *http.Request, rep *reply, out map[string]any) {
	q := req.URL.Query()
	var l []string
	for _, n := range h.clusters() {
		if strings.HasPrefix(n, q.Get("clusterNameFilter")) {
			l = append(l, n)
		}
	}
	from, _ := strconv.Atoi(q.Get("nextToken"))
	if from > len(l) {
		from = len(l)
	}
	l = l[from:]
	if n := int(h.p.K("page")); n > 0 && len(l) > n {
		out["nextToken"] = strconv.Itoa(from + n)
		rep.next = true
		l = l[:n]
	}
	ci := []any{}
	for _, n := range l {
		m := map[string]any{"clusterName": n, "state": "ACTIVE"}
		if n != clusterName || !h.on("noarn") {
			m["clusterArn"] = arnOf(n)
			if n == clusterName {
				rep.hit = arnOf(n)
			}
		} else {
			rep.noarn = true
			h.r.Fault("noarn")
		}
		ci = append(ci, m)
	}
	out["clusterInfoList"] = ci
}

// ---- logins at the brokers

const (
	scramUser = "su,per=user"
	scramPass = "p=s,s\"wörd"
)

func (h *H) iamLogin(k *simk.Conn, mech string, step int, msg []byte) ([]byte, bool, int64, error) {
	now := h.r.W.Now()
	h.r.OK("C20")
	var m map[string]string
	if err := json.Unmarshal(msg, &m); err != nil {
		h.v("login-format", "connection %d of client %d presents %q", k.ID(), k.Node, msg)
		return nil, false, 0, errors.New("bad message")
	}
	key, _, _ := strings.Cut(m["x-amz-credential"], "/")
	h.r.W.Trace("login of client %d on broker %d as %s", k.Node, k.Broker(), key)
	h.r.Count("iam-logins", 1)
	var s *issued
	for _, x := range h.prov.sets {
		if x.key == key {
			s = x
		}
	}
	if s == nil {
		h.v("login-unknown", "client %d logs in as %q, which the provider never returned", k.Node, key)
		return nil, false, 0, errors.New("access denied")
	}
	if m["x-amz-security-token"] != s.token {
		h.v("login-token", "client %d logs in as %s with session token %q, its token is %q", k.Node, key, m["x-amz-security-token"], s.token)
		return nil, false, 0, errors.New("access denied")
	}
	if w := sigv4(m, s.secret); w != m["x-amz-signature"] {
		h.v("login-signature", "client %d logs in as %s with a signature that its secret key does not make", k.Node, key)
		return nil, false, 0, errors.New("access denied")
	}
	// the provider must have been asked for this login; a cache in front of it answers until they expire
	if h.p.K("cache") == 0 {
		ok := false
		for _, c := range h.prov.calls {
			if c.is == s && c.err == nil && c.start >= k.HandshakeAt && c.end <= now {
				ok = true
			}
		}
		if !ok {
			h.v("login-stale", "client %d logs in at %d ms as %s, but the provider was not asked since the login began at %d ms (or said otherwise)", k.Node, now/1e6, key, k.HandshakeAt/1e6)
		}
	} else if s.expires > 0 && s.expires < k.HandshakeAt {
		h.v("login-stale", "client %d begins to log in at %d ms as %s, which expired at %d ms", k.Node, k.HandshakeAt/1e6, key, s.expires/1e6)
	}
	if s.expires > 0 && s.expires < now || s.revoked > 0 && s.revoked < now {
		h.r.Count("logins-expired-underway", 1)
		return nil, false, 0, errors.New("access denied")
	}
	life := h.p.K("session") * 1
	return []byte(`{"version":"2020_10_22","request-id":"1"}`), true, life, nil
}

// sigv4 computes the signature of a login message from its public fields and a secret key.
func sigv4(m map[string]string, secret string) string {
	names := map[string]string{"action": "Action", "x-amz-algorithm": "X-Amz-Algorithm", "x-amz-credential": "X-Amz-Credential", "x-amz-date": "X-Amz-Date",
		"x-amz-expires": "X-Amz-Expires", "x-amz-signedheaders": "X-Amz-SignedHeaders", "x-amz-security-token": "X-Amz-Security-Token"}
	var qs []string
	for k, n := range names {
		if v, ok := m[k]; ok {
			qs = append(qs, n+"="+strings.ReplaceAll(url.QueryEscape(v), "+", "%20"))
		}
	}
	sort.Strings(qs)
	empty := sha256.Sum256(nil)
	canon := sha256.Sum256([]byte("GET\n/\n" + strings.Join(qs, "&") + "\nhost:" + m["host"] + "\n\nhost\n" + hex.EncodeToString(empty[:])))
	f := strings.Split(m["x-amz-credential"], "/")
	if len(f) != 5 {
		return "?"
	}
	sts := "AWS4-HMAC-SHA256\n" + m["x-amz-date"] + "\n" + strings.Join(f[1:], "/") + "\n" + hex.EncodeToString(canon[:])
	k := []byte("AWS4" + secret)
	for _, x := range append(f[1:], sts) {
		mac := hmac.New(sha256.New, k)
		mac.Write([]byte(x))
		k = mac.Sum(nil)
	}
	return hex.EncodeToString(k)
}

type scramState struct{ bare, first string }

func unescape(s string) string { return strings.NewReplacer("=2C", ",", "=3D", "=").Replace(s) }

func (h *H) scramLogin(k *simk.Conn, mech string, step int, msg []byte) ([]byte, bool, int64, error) {
	h.r.OK("C20")
	deny := func(sig, f string, a ...any) ([]byte, bool, int64, error) {
		h.v(sig, f, a...)
		return nil, false, 0, errors.New("denied")
	}
	attr := func(s, k string) string {
		for _, x := range strings.Split(s, ",") {
			if strings.HasPrefix(x, k+"=") {
				return x[2:]
			}
		}
		return ""
	}
	const iters = 4096
	salt := []byte("salty")
	if step == 0 {
		s := string(msg)
		if !strings.HasPrefix(s, "n,,") {
			return deny("login-format", "client %d presents %q", k.Node, s)
		}
		bare := s[3:]
		if u := unescape(attr(bare, "n")); u != scramUser {
			return deny("login-user", "client %d logs in as user %q, want %q", k.Node, u, scramUser)
		}
		first := fmt.Sprintf("r=%sSRV,s=%s,i=%d", attr(bare, "r"), base64.StdEncoding.EncodeToString(salt), iters)
		k.Data = &scramState{bare, first}
		h.r.Count("scram-logins", 1)
		return []byte(first), false, 0, nil
	}
	st, ok := k.Data.(*scramState)
	if !ok || step != 1 {
		return deny("login-format", "client %d presents %q in step %d", k.Node, msg, step)
	}
	final := string(msg)
	i := strings.LastIndex(final, ",p=")
	if i < 0 {
		return deny("login-format", "client %d presents %q", k.Node, final)
	}
	proof, _ := base64.StdEncoding.DecodeString(final[i+3:])
	if h.salted == nil {
		h.salted, _ = pbkdf2.Key(sha512.New, scramPass, salt, iters, 64)
	}
	hm := func(k []byte, s string) []byte {
		m := hmac.New(sha512.New, k)
		m.Write([]byte(s))
		return m.Sum(nil)
	}
	auth := st.bare + "," + st.first + "," + final[:i]
	ck := hm(h.salted, "Client Key")
	sk := sha512.Sum512(ck)
	sig := hm(sk[:], auth)
	for i := range sig {
		sig[i] ^= ck[i]
	}
	if !hmac.Equal(sig, proof) {
		return deny("login-password", "client %d logs in as %q with another password", k.Node, scramUser)
	}
	return []byte("v=" + base64.StdEncoding.EncodeToString(hm(hm(h.salted, "Server Key"), auth))), true, h.p.K("session"), nil
}
