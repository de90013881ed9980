//go:build go1.27

package kit

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Net is the simulated network with the update server on it.
type Net struct {
	w       *World
	dials   []*dialRec
	reqs    []*reqRec
	raw     []byte // everything clients put on the wire
	plain   []byte // every request as the servers understood it
	plan    func(d *dialRec)
	serve   func(r *reqRec) reply
	latency time.Duration
	conns   []*simConn
	served  int
}

type dialRec struct {
	n    int
	p    *Proc
	at   time.Duration
	addr string
	host string
	port string
	// decided by the plan
	kind  string // "" accept; refuse noroute dns blackhole
	delay time.Duration
	cert  string // "" good; self wronghost expired future untrusted
	early string // stall-tls reset-tls plain garbage: behaviour before the handshake ends
	// observed
	shook bool
}

type reqRec struct {
	n    int
	d    *dialRec
	p    *Proc
	at   time.Duration
	url  string // scheme://host/path
	path string
	host string
	tls  bool
}

// reply is how the server answers one request.
type reply struct {
	status   int
	header   [][2]string
	body     []byte
	mode     string // "" normal; stall reset cut garbage endless close drip stallhead
	at       int    // byte position of the mode's event in the body
	delay    time.Duration
	chunked  bool
	noLength bool
	endless  bool
	drip     time.Duration
	rawHead  []byte
}

func newNet(w *World) *Net { return &Net{w: w, latency: 5 * time.Millisecond} }

type netErr struct {
	msg     string
	timeout bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.timeout }

func dialHook(ctx context.Context, network, address string) (net.Conn, error, bool) {
	if !simActive() {
		return nil, nil, false
	}
	w := cur
	p := w.me()
	if p.gone() {
		p.die()
		return nil, syscall.EIO, true
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err, true
	}
	n := w.net
	d := &dialRec{n: len(n.dials), p: p, at: w.now(), addr: address, host: host, port: port}
	n.dials = append(n.dials, d)
	p.dials = append(p.dials, *d)
	if n.plan != nil {
		n.plan(d)
	} else {
		d.kind = "noroute"
	}
	if d.kind == "" && strings.ContainsFunc(host, func(c rune) bool { return c <= ' ' || c >= 127 }) {
		d.kind = "dns" // no such name
	}
	w.logf("%s dial %s %s delay=%v cert=%s early=%s", p.name, address, d.kind, d.delay, d.cert, d.early)
	w.note("dial", address, d.kind, d.cert, d.early)
	if d.kind != "" {
		w.fault("dial:" + d.kind)
	}
	if d.cert != "" {
		w.fault("cert:" + d.cert)
	}
	if d.early != "" {
		w.fault("tls:" + d.early)
	}
	wait := d.delay + n.latency
	if d.kind == "blackhole" {
		wait = 1000 * time.Hour
	}
	tm := time.NewTimer(wait)
	defer tm.Stop()
	select {
	case <-tm.C:
	case <-ctx.Done():
		return nil, &net.OpError{Op: "dial", Net: network, Err: &netErr{"i/o timeout", true}}, true
	case <-p.dead:
		p.die()
		return nil, syscall.EIO, true
	}
	if p.gone() {
		p.die()
		return nil, syscall.EIO, true
	}
	switch d.kind {
	case "refuse":
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}, true
	case "noroute":
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ENETUNREACH)}, true
	case "dns":
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}, true
	}
	c, s := n.pair(p)
	go func() {
		runtime.VerifSetProcID(harnessID)
		defer s.Close()
		n.server(d, s)
	}()
	return c, nil, true
}

// ---------------------------------------------------------------- connection

type seg struct {
	at   time.Time
	data []byte
}

type simConn struct {
	n        *Net
	p        *Proc // client side only
	client   bool
	peer     *simConn
	mu       sync.Mutex
	in       []seg
	inBytes  int
	eof      bool
	eofAt    time.Time
	reset    bool
	closed   bool
	rd, wd   time.Time
	wake     chan struct{}
	lastAt   time.Time
	bw       int // bytes per second towards the peer
	linked   bool
	chunkMax int
}

func (n *Net) pair(p *Proc) (c, s *simConn) {
	c = &simConn{n: n, p: p, client: true, wake: make(chan struct{}, 1)}
	s = &simConn{n: n, wake: make(chan struct{}, 1)}
	c.peer, s.peer = s, c
	n.conns = append(n.conns, c, s)
	p.conns = append(p.conns, c)
	return
}

func (c *simConn) ring() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *simConn) guard() {
	if c.client && c.p.gone() {
		c.p.die()
	}
}

func (c *simConn) Read(b []byte) (int, error) {
	for {
		c.guard()
		c.mu.Lock()
		now := time.Now()
		if c.closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !c.rd.IsZero() && !now.Before(c.rd) {
			c.mu.Unlock()
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		if len(b) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.in) > 0 && !c.in[0].at.After(now) {
			n := copy(b, c.in[0].data)
			c.in[0].data = c.in[0].data[n:]
			if len(c.in[0].data) == 0 {
				c.in = c.in[1:]
			}
			c.inBytes -= n
			c.mu.Unlock()
			c.peer.ring()
			return n, nil
		}
		if len(c.in) == 0 && c.eof && !c.eofAt.After(now) {
			r := c.reset
			c.mu.Unlock()
			if r {
				return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
			}
			return 0, io.EOF
		}
		var next time.Time
		upd := func(t time.Time) {
			if next.IsZero() || t.Before(next) {
				next = t
			}
		}
		if !c.rd.IsZero() {
			upd(c.rd)
		}
		if len(c.in) > 0 {
			upd(c.in[0].at)
		} else if c.eof {
			upd(c.eofAt)
		}
		c.mu.Unlock()
		c.wait(next)
	}
}

func (c *simConn) wait(next time.Time) {
	var tc <-chan time.Time
	if !next.IsZero() {
		tm := time.NewTimer(time.Until(next))
		defer tm.Stop()
		tc = tm.C
	}
	if c.client {
		select {
		case <-c.wake:
		case <-tc:
		case <-c.p.dead:
		}
		return
	}
	select {
	case <-c.wake:
	case <-tc:
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	total := 0
	for {
		c.guard()
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return total, net.ErrClosed
		}
		now := time.Now()
		if !c.wd.IsZero() && !now.Before(c.wd) {
			c.mu.Unlock()
			return total, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		wd := c.wd
		c.mu.Unlock()
		q := c.peer
		q.mu.Lock()
		if q.closed || c.reset {
			q.mu.Unlock()
			return total, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
		}
		if len(b) == 0 {
			q.mu.Unlock()
			return total, nil
		}
		room := 1<<18 - q.inBytes
		if room > 0 {
			m := min(room, len(b))
			at := now.Add(c.n.latency)
			if c.bw > 0 {
				at = at.Add(time.Duration(m) * time.Second / time.Duration(c.bw))
				if at.Before(c.lastAt) {
					at = c.lastAt.Add(time.Duration(m) * time.Second / time.Duration(c.bw))
				}
			}
			if at.Before(c.lastAt) {
				at = c.lastAt
			}
			c.lastAt = at
			q.in = append(q.in, seg{at, append([]byte(nil), b[:m]...)})
			q.inBytes += m
			if c.client {
				c.n.raw = append(c.n.raw, b[:m]...)
			}
			b = b[m:]
			total += m
			q.mu.Unlock()
			q.ring()
			continue
		}
		q.mu.Unlock()
		c.wait(wd)
	}
}

func (c *simConn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return nil
	}
	c.closed = true
	c.in = nil
	c.mu.Unlock()
	c.ring()
	q := c.peer
	q.mu.Lock()
	if !q.eof {
		q.eof = true
		q.eofAt = time.Now().Add(c.n.latency)
		if q.eofAt.Before(c.lastAt) {
			q.eofAt = c.lastAt
		}
	}
	q.mu.Unlock()
	q.ring()
	return nil
}

// abort resets the connection.
func (c *simConn) abort() {
	q := c.peer
	q.mu.Lock()
	q.eof, q.reset = true, true
	q.eofAt = time.Now().Add(c.n.latency)
	if q.eofAt.Before(c.lastAt) {
		q.eofAt = c.lastAt
	}
	q.mu.Unlock()
	q.ring()
	c.Close()
}

func (c *simConn) processDied() {
	q := c.peer
	q.mu.Lock()
	q.eof = true
	q.eofAt = time.Now()
	q.in, q.inBytes = nil, 0
	q.mu.Unlock()
	q.ring()
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	c.ring()
}

func (c *simConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000} }
func (c *simConn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 443} }
func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// deadlines are absolute wall-clock times on a clock that may be shifted;
// keep what remains of them.
func (c *simConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rd = t
	c.mu.Unlock()
	c.ring()
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wd = t
	c.mu.Unlock()
	c.ring()
	return nil
}

func (n *Net) shutdown() {
	for _, c := range n.conns {
		c.mu.Lock()
		c.closed = true
		c.eof = true
		c.in = nil
		c.mu.Unlock()
		c.ring()
	}
}

// ---------------------------------------------------------------- server

func (n *Net) server(d *dialRec, s *simConn) {
	var conn net.Conn = s
	secure := false
	switch d.early {
	case "stall":
		io.Copy(io.Discard, s)
		return
	case "reset":
		buf := make([]byte, 512)
		s.Read(buf)
		s.abort()
		return
	case "close":
		buf := make([]byte, 512)
		s.Read(buf)
		return
	case "garbage":
		buf := make([]byte, 512)
		s.Read(buf)
		s.Write([]byte("SSH-2.0-OpenSSH_9.6\r\n\x00\x01\x02garbage garbage garbage"))
		io.Copy(io.Discard, s)
		return
	case "stallhello": // the first part of the handshake only
		conn = &cutConn{Conn: s, left: 60}
	}
	if d.port == "443" || d.early != "plain" && d.port != "80" {
		secure = true
	}
	if d.early == "plain" {
		secure = false
	}
	if secure {
		cfg := &tls.Config{Certificates: []tls.Certificate{n.w.cert(d)}, NextProtos: []string{"http/1.1"}, SessionTicketsDisabled: true}
		tc := tls.Server(conn, cfg)
		if err := tc.Handshake(); err != nil {
			n.w.logf("server: handshake with %s: %v", d.addr, err)
			s.Close()
			return
		}
		d.shook = true
		conn = tc
	}
	br := bufio.NewReader(conn)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		body, _ := io.ReadAll(req.Body)
		var dump bytes.Buffer
		req.Header.Write(&dump)
		n.plain = append(n.plain, req.Method+" "+req.RequestURI+"\n"+req.Host+"\n"+dump.String()...)
		n.plain = append(n.plain, body...)
		scheme := "http://"
		if secure {
			scheme = "https://"
		}
		r := &reqRec{n: len(n.reqs), d: d, p: d.p, at: n.w.now(), url: scheme + req.Host + req.RequestURI, path: req.RequestURI, host: req.Host, tls: secure}
		n.reqs = append(n.reqs, r)
		rep := reply{status: 404, body: []byte("not found")}
		if n.serve != nil {
			rep = n.serve(r)
		}
		n.w.logf("server: %s %s -> %d mode=%s at=%d len=%d", req.Method, r.url, rep.status, rep.mode, rep.at, len(rep.body))
		n.w.note("req", r.url, itoa(rep.status), rep.mode, itoa(rep.at))
		if rep.mode != "" {
			n.w.fault("http:" + rep.mode)
		}
		if rep.status >= 400 {
			n.w.fault("http:" + itoa(rep.status))
		}
		if !n.respond(s, conn, rep) {
			if rep.mode == "reset" {
				s.abort()
			}
			return
		}
		if req.Close {
			return
		}
	}
}

// cutConn lets only the first bytes through, then swallows the rest.
type cutConn struct {
	net.Conn
	left int
}

func (c *cutConn) Write(b []byte) (int, error) {
	m := min(len(b), c.left)
	if m > 0 {
		if _, err := c.Conn.Write(b[:m]); err != nil {
			return 0, err
		}
		c.left -= m
	}
	return len(b), nil
}

// hold keeps the connection open and silent until the client goes away.
func (s *simConn) hold(conn net.Conn) { io.Copy(io.Discard, conn) }

func (n *Net) respond(s *simConn, conn net.Conn, r reply) bool {
	if r.delay > 0 {
		if !s.nap(r.delay) {
			return false
		}
	}
	if r.mode == "stallhead" {
		s.hold(conn)
		return false
	}
	if r.mode == "resethead" {
		s.abort()
		return false
	}
	if r.mode == "garbage" {
		conn.Write(append([]byte("\x00\x01garbage"), r.body...))
		s.hold(conn)
		return false
	}
	var h bytes.Buffer
	if r.rawHead != nil {
		h.Write(r.rawHead)
	} else {
		h.WriteString("HTTP/1.1 " + itoa(r.status) + " " + http.StatusText(r.status) + "\r\n")
		for _, kv := range r.header {
			h.WriteString(kv[0] + ": " + kv[1] + "\r\n")
		}
		switch {
		case r.endless || r.chunked:
			h.WriteString("Transfer-Encoding: chunked\r\n")
		case r.noLength:
			h.WriteString("Connection: close\r\n")
		default:
			h.WriteString("Content-Length: " + itoa(len(r.body)) + "\r\n")
		}
		h.WriteString("\r\n")
	}
	hb := h.Bytes()
	if r.mode == "driphead" {
		for i := range hb {
			if !s.nap(r.drip) {
				return false
			}
			if _, err := conn.Write(hb[i : i+1]); err != nil {
				return false
			}
		}
	} else if r.mode == "stallinhead" {
		conn.Write(hb[:min(len(hb), 20)])
		s.hold(conn)
		return false
	} else if _, err := conn.Write(hb); err != nil {
		return false
	}
	put := func(b []byte) bool {
		if len(b) == 0 {
			return true
		}
		if r.chunked || r.endless {
			var cb bytes.Buffer
			cb.WriteString(strings.ToLower(hexInt(len(b))) + "\r\n")
			cb.Write(b)
			cb.WriteString("\r\n")
			_, err := conn.Write(cb.Bytes())
			return err == nil
		}
		_, err := conn.Write(b)
		return err == nil
	}
	if r.endless {
		if !put(r.body) {
			return false
		}
		pad := bytes.Repeat([]byte(" "), 4096)
		for i := 0; i < 100000; i++ {
			if !s.nap(50 * time.Millisecond) {
				return false
			}
			if !put(pad) {
				return false
			}
		}
		return false
	}
	body := r.body
	stop := -1
	switch r.mode {
	case "stall", "reset", "cut":
		stop = min(r.at, len(body))
		body = body[:stop]
	}
	if r.mode == "drip" {
		step := max(1, r.at)
		for len(body) > 0 {
			m := min(step, len(body))
			if !put(body[:m]) {
				return false
			}
			body = body[m:]
			if !s.nap(r.drip) {
				return false
			}
		}
	} else {
		for len(body) > 0 {
			m := min(len(body), 8192)
			if !put(body[:m]) {
				return false
			}
			body = body[m:]
		}
	}
	switch r.mode {
	case "stall":
		s.hold(conn)
		return false
	case "reset":
		s.nap(2 * n.latency)
		return false
	case "cut":
		return false
	}
	if r.chunked {
		conn.Write([]byte("0\r\n\r\n"))
	}
	if r.noLength {
		if tc, ok := conn.(*tls.Conn); ok {
			tc.CloseWrite()
		}
		return false
	}
	return true
}

func hexInt(n int) string {
	s := hex64(uint64(n))
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	return s
}

// nap sleeps on the server side; false when the peer went away.
func (s *simConn) nap(d time.Duration) bool {
	end := time.Now().Add(d)
	for {
		s.mu.Lock()
		gone := s.closed || s.eof
		s.mu.Unlock()
		if gone {
			return false
		}
		left := time.Until(end)
		if left <= 0 {
			return true
		}
		tm := time.NewTimer(left)
		select {
		case <-tm.C:
		case <-s.wake:
		}
		tm.Stop()
	}
}

// ---------------------------------------------------------------- certificates

var (
	caKey, caKey2   ed25519.PrivateKey
	caCert, caCert2 *x509.Certificate
	caPEM           []byte
	leafKey         ed25519.PrivateKey
	certCache       = map[string]tls.Certificate{}
)

const wallBase2026 = 1_790_000_000

func initCA() {
	mk := func(seed byte) ed25519.PrivateKey { return ed25519.NewKeyFromSeed(bytes.Repeat([]byte{seed}, 32)) }
	caKey, caKey2, leafKey = mk(1), mk(2), mk(3)
	base := time.Unix(wallBase2026, 0)
	ca := func(k ed25519.PrivateKey, cn string) ([]byte, *x509.Certificate) {
		tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: cn}, NotBefore: base.AddDate(-60, 0, 0), NotAfter: base.AddDate(60, 0, 0),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
		der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, k.Public(), k)
		if err != nil {
			panic(err)
		}
		c, _ := x509.ParseCertificate(der)
		return der, c
	}
	var der []byte
	der, caCert = ca(caKey, "Simulated Root CA")
	_, caCert2 = ca(caKey2, "Untrusted Root CA")
	caPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func (w *World) cert(d *dialRec) (c tls.Certificate) {
	key := d.host + "|" + d.cert
	if c, ok := certCache[key]; ok {
		return c
	}
	base := time.Unix(wallBase2026, 0)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: d.host}, DNSNames: []string{d.host}, NotBefore: base.AddDate(-40, 0, 0), NotAfter: base.AddDate(40, 0, 0),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	parent, pk := caCert, caKey
	switch d.cert {
	case "self":
		parent, pk = tpl, leafKey
	case "selfca": // its own authority, for everything
		parent, pk = tpl, leafKey
		tpl.IsCA, tpl.BasicConstraintsValid, tpl.KeyUsage = true, true, tpl.KeyUsage|x509.KeyUsageCertSign
		tpl.DNSNames = []string{"*", "*.com", "*." + d.host, d.host}
	case "untrusted", "chain":
		parent, pk = caCert2, caKey2
	case "lookalike": // the trusted authority's name with another key, and several names
		twin := *caCert
		twin.PublicKey = caKey2.Public()
		parent, pk = &twin, caKey2
		tpl.DNSNames = []string{"github.com", d.host, "*.github.com", "objects.githubusercontent.com"}
	case "noname": // trusted, the host only as common name
		tpl.DNSNames = nil
	case "many":
		parent, pk = caCert2, caKey2
		tpl.DNSNames = []string{"evil.example.net", "github.com", "*.github.com", d.host}
	case "leafsigned": // signed by a trusted certificate that is no authority
		leaf := &x509.Certificate{SerialNumber: big.NewInt(8), Subject: pkix.Name{CommonName: "evil.example.net"}, DNSNames: []string{"evil.example.net"}, NotBefore: tpl.NotBefore, NotAfter: tpl.NotAfter, KeyUsage: tpl.KeyUsage, ExtKeyUsage: tpl.ExtKeyUsage}
		mid, err := x509.CreateCertificate(detReader{}, leaf, caCert, leafKey.Public(), caKey)
		if err != nil {
			panic(err)
		}
		parent, pk = leaf, leafKey
		defer func() { c.Certificate = append(c.Certificate, mid); certCache[key] = c }()
	case "wronghost":
		tpl.DNSNames = []string{"evil.example.net"}
		tpl.Subject.CommonName = "evil.example.net"
	case "subdomain":
		tpl.DNSNames = []string{"www." + d.host}
	case "expired":
		tpl.NotAfter = base.AddDate(-1, 0, 0)
	case "future":
		tpl.NotBefore = base.AddDate(1, 0, 0)
	case "clientauth":
		tpl.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	}
	der, err := x509.CreateCertificate(detReader{}, tpl, parent, leafKey.Public(), pk)
	if err != nil {
		panic(err)
	}
	c = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: leafKey}
	if d.cert == "chain" {
		c.Certificate = append(c.Certificate, caCert2.Raw)
	}
	certCache[key] = c
	return c
}

type detReader struct{}

func (detReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i * 7)
	}
	return len(b), nil
}

var errNet = errors.New("net")
