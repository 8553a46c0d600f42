package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- C16: SASL -----------------------------------------------------------------

// authOrder checks every connection of the trace: nothing but the version
// request and the SASL exchange before the authentication has succeeded, with
// the configured credentials.
func authOrder(t *T, c *fake.Cluster, sasl healer.SaslConfig) (conns, authed int) {
	type st struct {
		shook, ok, failed bool
		n                 int
	}
	all := map[int64]*st{}
	token := []byte("\x00" + sasl.User + "\x00" + sasl.Password)
	for _, e := range c.Tr.Events() {
		if e.Kind == "conn" {
			all[e.Conn] = &st{}
			continue
		}
		s := all[e.Conn]
		if s == nil {
			continue
		}
		switch e.Kind {
		case "req":
			s.n++
			if e.Body == nil {
				continue
			}
			switch e.Key {
			case kproto.ApiVersions:
			case kproto.SaslHandshake:
				if sasl.Mechanism == "" {
					t.Violate("SASL exchange without SASL configured", "conn %d: %v", e.Conn, e.Body)
				} else if m := e.Body.S("mechanism"); m != sasl.Mechanism {
					t.Violate("another SASL mechanism than configured", "conn %d: %q instead of %q", e.Conn, m, sasl.Mechanism)
				}
			case kproto.SaslAuthenticate:
				if sasl.Mechanism == "" {
					t.Violate("SASL exchange without SASL configured", "conn %d: %v", e.Conn, e.Body)
				} else if !s.shook {
					t.Violate("credentials sent without an accepted handshake", "conn %d", e.Conn)
				} else if b := e.Body.B("auth_bytes"); !bytes.Equal(b, token) {
					t.Violate("wrong credentials sent", "conn %d: %s instead of %s", e.Conn, show(b), show(token))
				}
			default:
				if sasl.Mechanism != "" && !s.ok {
					t.Violate("request on a connection that is not authenticated", "conn %d: %s", e.Conn, kproto.Name(e.Key))
				}
				t.EvalN(1)
			}
			if s.failed {
				t.Violate("request after a failed authentication", "conn %d: %s", e.Conn, kproto.Name(e.Key))
			}
		case "resp":
			if e.Body == nil {
				continue
			}
			switch e.Key {
			case kproto.SaslHandshake:
				if e.Body.I("error_code") == 0 {
					s.shook = true
				} else {
					s.failed = true
				}
			case kproto.SaslAuthenticate:
				if e.Body.I("error_code") == 0 {
					s.ok = true
				} else {
					s.failed = true
				}
			}
		}
	}
	for _, s := range all {
		if s.n > 0 {
			conns++
		}
		if s.ok {
			authed++
		}
	}
	return
}

func randCred(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return pick(r, "a", "admin", "pass word", "pä\u4e16界ß", "=,;\"'\\", strings.Repeat("x", 300), "null", "%00", "\n\t")
	default:
		s := strings.ReplaceAll(rstr(r, 40), "\x00", "")
		if s == "" {
			s = "u"
		}
		return s
	}
}

func runC16(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	c := cluster(t, nodes)
	wireMonitor(t, c)
	c.RebalanceTimeout = t.Limit(10 * time.Second)
	c.AddTopic("t", 1+r.Intn(3))
	mech := pick(r, "PLAIN", "plain", "Plain", "PLAIN")
	sasl := healer.SaslConfig{Mechanism: mech, User: randCred(r), Password: randCred(r)}
	scene := pick(r, "good", "good", "good", "flaky", "flaky", "wrong password", "other mechanism", "unsupported", "not configured", "not required", "reconnect refused")
	comp := components[r.Intn(len(components))]
	if scene == "flaky" || scene == "reconnect refused" {
		comp = "brokers"
	}
	t.Label("%s %s nodes=%d mech=%s", scene, comp, nodes, mech)
	token := "\x00" + sasl.User + "\x00" + sasl.Password
	s := &fake.Sasl{Mechanisms: []string{"GSSAPI", mech}, Check: func(m string, b []byte) bool { return string(b) == token }}
	c.Sasl = s
	cfg := sasl
	ok := true
	switch scene {
	case "wrong password":
		cfg.Password += pick(r, "x", " ", "\n")
		ok = false
	case "other mechanism":
		s.Mechanisms = []string{"GSSAPI", "SCRAM-SHA-256"}
		ok = false
	case "unsupported":
		cfg.Mechanism = pick(r, "SCRAM-SHA-256", "SCRAM-SHA-512", "GSSAPI", "PLAIN2")
		s.Mechanisms = append(s.Mechanisms, cfg.Mechanism)
		ok = false
	case "not configured":
		cfg = healer.SaslConfig{User: sasl.User, Password: sasl.Password}
		ok = false
	case "not required":
		cfg = healer.SaslConfig{}
		c.Sasl = nil
	}
	sec := secCfg{sasl: cfg}
	switch scene {
	case "flaky":
		runFlaky(t, c, sec)
	case "reconnect refused":
		refused(t, c, sec, s)
	default:
		created, err := useComponent(t, c, comp, sec, func() {
			for _, n := range c.Nodes {
				if r.Intn(3) > 0 {
					n.KillConns()
				}
			}
		})
		switch {
		case ok && err != nil:
			t.Violate("authenticated client does not work", "%s: %v", comp, err)
		case !ok && created:
			t.Violate("client created although its authentication fails", "%s, %s: error %v", comp, scene, err)
		}
	}
	conns, authed := authOrder(t, c, cfg)
	if !ok && authed > 0 {
		t.Violate("authentication succeeded unexpectedly", "%s: %d connections", scene, authed)
	}
	t.Eval(scene + " " + comp)
	t.Sample("%s %s: %d connections, %d authenticated", scene, comp, conns, authed)
}

// runFlaky: the exchange fails now and then; calls fail or succeed, and in the end all is well.
func runFlaky(t *T, c *fake.Cluster, sec secCfg) {
	r := t.Rng
	var mu sync.Mutex
	hr := rand.New(rand.NewSource(r.Int63()))
	on := true
	c.SetHook(func(q *fake.Req) *fake.Fault {
		mu.Lock()
		defer mu.Unlock()
		if !on || (q.H.Key != kproto.SaslHandshake && q.H.Key != kproto.SaslAuthenticate && q.H.Key != kproto.ApiVersions) || hr.Intn(3) > 0 {
			return nil
		}
		switch k := hr.Intn(3); {
		case k == 0:
			t.Eval("flaky close " + kproto.Name(q.H.Key))
			return &fake.Fault{CloseBefore: true}
		case k == 1:
			t.Eval("flaky close after " + kproto.Name(q.H.Key))
			return &fake.Fault{CloseAfter: true}
		}
		t.Eval("flaky error " + kproto.Name(q.H.Key))
		code := pick(hr, int64(33), 34, 58, 15)
		return &fake.Fault{SkipProcess: true, Body: func(M) M {
			switch q.H.Key {
			case kproto.SaslHandshake:
				return M{"error_code": code, "mechanisms": kproto.Arr("PLAIN")}
			case kproto.SaslAuthenticate:
				return M{"error_code": code, "error_message": pick[any](hr, nil, "no", ""), "auth_bytes": []byte{}}
			}
			return M{"error_code": int64(35), "api_keys": []any{}}
		}}
	})
	var b *healer.Brokers
	bc := bconf()
	bc.Sasl = sec.sasl
	var err error
	for i := 0; i < 200 && b == nil; i++ {
		t.Do("connecting while authentication fails now and then", 60*time.Second, func() { b, err = healer.NewBrokersWithConfig(c.Bootstrap(), bc) })
	}
	if b == nil {
		t.Fatal("cannot connect although most attempts are accepted", "last error: %v", err)
	}
	defer b.Close()
	for i := 0; i < 6; i++ {
		for id, n := range c.Nodes {
			t.Do("request while authentication fails now and then", 60*time.Second, func() {
				br, err := b.GetBroker(id)
				if err == nil {
					_, err = br.RequestListGroups("x")
				}
				if err == nil {
					t.EvalN(1)
				}
			})
			if r.Intn(2) == 0 {
				n.KillConns()
			}
		}
	}
	mu.Lock()
	on = false
	mu.Unlock()
	if r.Intn(6) == 0 { // a handle that has been in use for long
		for i := 0; i < 300+r.Intn(300); i++ {
			t.Do("request", 60*time.Second, func() {
				if br, err := b.GetBroker(1); err == nil {
					br.RequestListGroups("x")
				}
			})
		}
		for _, n := range c.Nodes {
			n.KillConns()
		}
		t.Eval("reconnect after many requests")
	}
	for id := range c.Nodes {
		t.Do("request", 60*time.Second, func() {
			err = tries(4, func() error {
				br, err := b.GetBroker(id)
				if err == nil {
					_, err = br.RequestListGroups("x")
				}
				return err
			})
		})
		if err != nil {
			t.Violate("broker unusable after a failed authentication", "node %d: %v", id, err)
		}
	}
}

// refused: the password changes; established connections work, new ones are refused.
func refused(t *T, c *fake.Cluster, sec secCfg, s *fake.Sasl) {
	bc := bconf()
	bc.Sasl = sec.sasl
	b := brokersCfg(t, c, bc)
	id := int32(1 + t.Rng.Intn(len(c.Nodes)))
	br := broker(t, b, id)
	req := func() (err error) {
		t.Do("request", 60*time.Second, func() { _, err = br.RequestListGroups("x") })
		return
	}
	if err := req(); err != nil {
		t.Fatal("authenticated client does not work", "%v", err)
	}
	c.Mu.Lock()
	old := s.Check
	s.Check = func(string, []byte) bool { return false }
	c.Mu.Unlock()
	if err := req(); err != nil {
		t.Violate("established connection does not work", "%v", err)
	}
	for i := 0; i < 3; i++ {
		c.Nodes[id].KillConns()
		yield(t.Rng)
		if err := req(); err == nil {
			t.Violate("request succeeded without authentication", "node %d", id)
		}
	}
	c.Mu.Lock()
	s.Check = old
	c.Mu.Unlock()
	if err := tries(3, req); err != nil {
		t.Violate("broker unusable after a failed authentication", "node %d: %v", id, err)
	}
}

// ---- C23: TLS ------------------------------------------------------------------

type pki struct {
	dir        string
	ca, other  *x509.Certificate
	caKey, oth *ecdsa.PrivateKey
	pool       *x509.CertPool
}

var (
	thePKI  *pki
	pkiOnce sync.Once
)

func mkCert(cn string, ips []net.IP, dns []string, parent *x509.Certificate, pk *ecdsa.PrivateKey, isCA, expired bool) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	n, _ := crand.Int(crand.Reader, big.NewInt(1<<60))
	tm := &x509.Certificate{SerialNumber: n, Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IPAddresses: ips, DNSNames: dns, IsCA: isCA, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	if isCA {
		tm.KeyUsage |= x509.KeyUsageCertSign
		tm.ExtKeyUsage = nil
	}
	if expired {
		tm.NotAfter = time.Now().Add(-24 * time.Hour)
	}
	if parent == nil {
		parent, pk = tm, key
	}
	der, err := x509.CreateCertificate(crand.Reader, tm, parent, &key.PublicKey, pk)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	cert, _ := x509.ParseCertificate(der)
	return cert, key, der
}

func writePEM(path, typ string, der []byte) string {
	if err := os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0o600); err != nil {
		panic("HARNESS: " + err.Error())
	}
	return path
}

func getPKI() *pki {
	pkiOnce.Do(func() {
		dir, err := os.MkdirTemp(mon.WorkDir, "tls")
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		p := &pki{dir: dir}
		var der []byte
		p.ca, p.caKey, der = mkCert("verif ca", nil, nil, nil, nil, true, false)
		writePEM(filepath.Join(dir, "ca.pem"), "CERTIFICATE", der)
		p.other, p.oth, der = mkCert("other ca", nil, nil, nil, nil, true, false)
		// the system trusts it, but it is not the configured one
		os.Setenv("SSL_CERT_FILE", writePEM(filepath.Join(dir, "other.pem"), "CERTIFICATE", der))
		os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
		for _, x := range []struct {
			name string
			ca   *x509.Certificate
			key  *ecdsa.PrivateKey
		}{{"client", p.ca, p.caKey}, {"stranger", p.other, p.oth}} {
			_, key, der := mkCert(x.name, nil, nil, x.ca, x.key, false, false)
			writePEM(filepath.Join(dir, x.name+".pem"), "CERTIFICATE", der)
			kb, _ := x509.MarshalECPrivateKey(key)
			writePEM(filepath.Join(dir, x.name+".key"), "EC PRIVATE KEY", kb)
		}
		p.pool = x509.NewCertPool()
		p.pool.AddCert(p.ca)
		thePKI = p
	})
	return thePKI
}

// useTLS makes the brokers demand TLS and returns a configuration that works with them.
func useTLS(c *fake.Cluster) *healer.TLSConfig {
	p := getPKI()
	_, key, der := mkCert("broker", []net.IP{net.ParseIP(c.Host())}, nil, p.ca, p.caKey, false, false)
	c.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, ClientCAs: p.pool, ClientAuth: tls.RequireAndVerifyClientCert}
	f := func(n string) string { return filepath.Join(p.dir, n) }
	return &healer.TLSConfig{Cert: f("client.pem"), Key: f("client.key"), CA: f("ca.pem")}
}

// impostor: one broker shows a bad certificate, from the start or later on.
func impostor(t *T) {
	r := t.Rng
	p := getPKI()
	c := cluster(t, 2+r.Intn(2))
	tc := useTLS(c)
	ips := []net.IP{net.ParseIP(c.Host())}
	kind := pick(r, "untrusted", "expired", "other name")
	ca, key := p.ca, p.caKey
	switch kind {
	case "untrusted":
		ca, key = p.other, p.oth
	case "other name":
		ips = []net.IP{net.ParseIP("10.0.0.1")}
	}
	_, bkey, bder := mkCert("broker", ips, nil, ca, key, false, kind == "expired")
	good := c.TLS.Certificates[0]
	bad := tls.Certificate{Certificate: [][]byte{bder}, PrivateKey: bkey}
	id := int32(1 + r.Intn(len(c.Nodes)))
	addr := c.Nodes[id].Addr()
	var on atomic.Bool
	c.TLS.Certificates = nil
	c.TLS.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
		if on.Load() && h.Conn.LocalAddr().String() == addr {
			return &bad, nil
		}
		return &good, nil
	}
	start := r.Intn(2) == 0
	on.Store(start)
	t.Label("one broker %s, from the start %v", kind, start)
	bc := bconf()
	bc.TLSEnabled, bc.TLS = true, tc
	b := brokersCfg(t, c, bc)
	req := func(n int32) (err error) {
		t.Do("request", 60*time.Second, func() {
			var br *healer.Broker
			if br, err = b.GetBroker(n); err == nil {
				_, err = br.RequestListGroups("x")
			}
		})
		return
	}
	if !start {
		if err := tries(3, func() error { return req(id) }); err != nil {
			t.Fatal("client with TLS does not work", "%v", err)
		}
		on.Store(true)
		c.Nodes[id].KillConns()
	}
	settle := c.Tr.Len()
	if start {
		settle = 0
	}
	for i := 0; i < 4; i++ {
		for n := range c.Nodes {
			if err := req(n); err == nil && n == id {
				t.Violate("request over a connection that cannot be trusted succeeds", "node %d, %s", id, kind)
			}
		}
		c.Nodes[id].KillConns()
	}
	for _, e := range c.Tr.Events()[settle:] {
		if e.Kind == "req" && e.Node == id {
			t.Violate("request sent over a connection that cannot be trusted", "one broker %s: %s", kind, e)
			break
		}
	}
	on.Store(false)
	for n := range c.Nodes {
		if err := tries(4, func() error { return req(n) }); err != nil {
			t.Violate("broker unusable after a failed verification", "node %d: %v", n, err)
		}
	}
	t.Eval("one broker " + kind)
}

func runC23(t *T) {
	r := t.Rng
	if r.Intn(6) == 0 {
		impostor(t)
		return
	}
	p := getPKI()
	nodes := 1 + r.Intn(2)
	c := cluster(t, nodes)
	c.RebalanceTimeout = t.Limit(10 * time.Second)
	c.AddTopic("t", 1+r.Intn(3))
	comp := components[r.Intn(len(components))]
	scene := pick(r, "good", "good", "good", "good by name", "good insecure", "untrusted", "other name", "wrong name", "expired", "client refused", "plaintext server", "no ca", "no cert", "bad file", "bad ca file", "nothing given", "off")
	f := func(n string) string { return filepath.Join(p.dir, n) }
	tc := &healer.TLSConfig{Cert: f("client.pem"), Key: f("client.key"), CA: f("ca.pem")}
	ips, dns := []net.IP{net.ParseIP(c.Host())}, []string(nil)
	ca, key := p.ca, p.caKey
	expired, tlsServer, ok, on := false, true, true, true
	switch scene {
	case "good by name":
		ips, dns = nil, []string{"kafka.example.org"}
		tc.ServerName = "kafka.example.org"
	case "good insecure":
		tc.InsecureSkipVerify = true
		if r.Intn(2) == 0 {
			ca, key = p.other, p.oth
		} else {
			ips = nil
		}
	case "untrusted":
		ca, key, ok = p.other, p.oth, false
	case "other name":
		ips, dns, ok = []net.IP{net.ParseIP("10.0.0.1")}, []string{"kafka.example.org"}, false
	case "wrong name":
		tc.ServerName, ok = "kafka.example.org", false
	case "expired":
		expired, ok = true, false
	case "client refused":
		tc.Cert, tc.Key, ok = f("stranger.pem"), f("stranger.key"), false
	case "plaintext server":
		tlsServer, ok = false, false
	case "no ca":
		tc.CA, ok = "", false
	case "no cert":
		if r.Intn(2) == 0 {
			tc.Cert = ""
		} else {
			tc.Key = ""
		}
		ok = false
	case "bad file":
		switch r.Intn(3) {
		case 0:
			tc.Cert = f("absent")
		case 1:
			tc.Key = f("stranger.key")
		case 2:
			tc.CA = f("absent")
		}
		ok = false
	case "bad ca file":
		tc.CA, ok = f("client.key"), false
	case "nothing given": // TLS is enabled, without any file
		tlsServer, ok = r.Intn(2) == 0, false
		if tc = nil; r.Intn(3) == 0 {
			tc = &healer.TLSConfig{}
		}
	case "off":
		tlsServer, on = false, false
		if r.Intn(2) == 0 {
			tc = nil
		}
	}
	t.Label("%s %s nodes=%d", scene, comp, nodes)
	sasl := healer.SaslConfig{}
	if r.Intn(3) == 0 {
		sasl = healer.SaslConfig{Mechanism: "PLAIN", User: "secret-user", Password: "secret-password"}
		c.Sasl = &fake.Sasl{Mechanisms: []string{"PLAIN"}, Check: func(m string, b []byte) bool { return string(b) == "\x00secret-user\x00secret-password" }}
	}
	_, skey, der := mkCert("broker", ips, dns, ca, key, false, expired)
	var mu sync.Mutex
	var peers int
	if tlsServer {
		c.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: skey}}, ClientCAs: p.pool, ClientAuth: tls.RequireAndVerifyClientCert,
			VerifyConnection: func(cs tls.ConnectionState) error {
				mu.Lock()
				defer mu.Unlock()
				if len(cs.PeerCertificates) > 0 && cs.PeerCertificates[0].Subject.CommonName == "client" {
					peers++
				}
				return nil
			}}
	}
	created, err := useComponent(t, c, comp, secCfg{on: on, tls: tc, sasl: sasl}, func() {
		for _, n := range c.Nodes {
			if r.Intn(3) > 0 {
				n.KillConns()
			}
		}
	})
	switch {
	case ok && err != nil:
		t.Violate("client with TLS does not work", "%s %s: %v", scene, comp, err)
	case !ok && created:
		t.Violate("client created although its connection cannot be trusted", "%s, %s: error %v", comp, scene, err)
	}
	reqs := 0
	for _, e := range c.Tr.Events() {
		if e.Kind == "req" {
			reqs++
		}
		// a TLS client hello read as a length is huge, anything else in plaintext is a leak
		if scene == "plaintext server" && (e.Kind == "req" || e.Kind == "partial" && !strings.Contains(e.Note, "length")) {
			t.Violate("data sent in plaintext although TLS is enabled", "%s", e.String())
		}
	}
	if !ok && reqs > 0 {
		t.Violate("request sent over a connection that cannot be trusted", "%s %s: %d requests", scene, comp, reqs)
	}
	if ok && on && peers == 0 {
		t.Violate("client certificate not presented", "%s %s", scene, comp)
	}
	t.EvalN(reqs)
	t.Eval(scene + " " + comp)
	t.Sample("%s %s sasl=%v: %d requests, %d connections with the client certificate", scene, comp, sasl.Mechanism != "", reqs, peers)
}

func init() {
	mon.Register(&mon.Prop{ID: "C16", Level: "exploration", Rule: "distinct (scenario, component) pairs and faults of the exchange",
		N: map[string]int{"quick": 4000, "thorough": 60000}, Par: 12, Run: runC16, Assumptions: []string{"The broker accepts SASL tokens framed in SaslAuthenticate requests (Kafka 1.0 and later)."},
		Required: []string{"good group consumer", "good producer", "wrong password", "other mechanism", "unsupported", "not configured", "not required", "flaky close", "flaky error", "reconnect refused"}})
	mon.Register(&mon.Prop{ID: "C23", Level: "exploration", Rule: "distinct (scenario, component) pairs",
		N: map[string]int{"quick": 3000, "thorough": 40000}, Par: 12, Run: runC23, Assumptions: []string{"crypto/tls verifies certificates as configured."},
		Required: []string{"good group consumer", "good producer", "untrusted", "other name", "wrong name", "expired", "client refused", "plaintext server", "no ca", "nothing given", "off", "one broker"}})
}

var _ = fmt.Sprint
