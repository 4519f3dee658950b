package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// P31: encrypted peers are authenticated as configured. The real program is
// run with every combination of authority, name and certificate, both as the
// client and as the server of every encrypted transport.

type pkiCert struct {
	name  string
	chain [][]byte // as sent
	leaf  *x509.Certificate
	key   *ecdsa.PrivateKey
}

func (p *pkiCert) tls() tls.Certificate {
	return tls.Certificate{Certificate: p.chain, PrivateKey: p.key}
}

// valid says whether the certificate is good for someone trusting the roots,
// looking for a name and using it for a purpose.
func (p *pkiCert) valid(roots []*pkiCert, name string, use x509.ExtKeyUsage) bool {
	pool, more := x509.NewCertPool(), x509.NewCertPool()
	for _, r := range roots {
		pool.AddCert(r.leaf)
	}
	for _, der := range p.chain[1:] {
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		more.AddCert(c)
	}
	_, err := p.leaf.Verify(x509.VerifyOptions{Roots: pool, Intermediates: more, DNSName: name, KeyUsages: []x509.ExtKeyUsage{use}})
	return err == nil
}

// write stores the chain and the key in files.
func (p *pkiCert) write(dir string) (crt, key string) {
	crt, key = filepath.Join(dir, p.name+".crt"), filepath.Join(dir, p.name+".key")
	var b bytes.Buffer
	for _, der := range p.chain {
		pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: der})
	}
	k, err := x509.MarshalPKCS8PrivateKey(p.key)
	if err != nil {
		panic(err)
	}
	for n, c := range map[string][]byte{crt: b.Bytes(), key: pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k})} {
		if err := os.WriteFile(n, c, 0o600); err != nil {
			panic(err)
		}
	}
	return crt, key
}

var pkiSerial int64

func pkiMake(name, subject string, ca bool, issuer *pkiCert, names []string, from, to time.Duration, uses ...x509.ExtKeyUsage) *pkiCert {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	pkiSerial++
	now := time.Now()
	t := &x509.Certificate{
		SerialNumber: big.NewInt(pkiSerial), Subject: pkix.Name{CommonName: subject},
		NotBefore: now.Add(from), NotAfter: now.Add(to),
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true, ExtKeyUsage: uses,
	}
	if ca {
		t.IsCA, t.KeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature
	}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, n)
		}
	}
	parent, sign := t, key
	if issuer != nil {
		parent, sign = issuer.leaf, issuer.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, sign)
	if err != nil {
		panic(err)
	}
	leaf, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &pkiCert{name: name, chain: [][]byte{der}, leaf: leaf, key: key}
}

type pki struct {
	a, b  *pkiCert
	certs []*pkiCert // good for an end, or not
}

const (
	p31Good  = "good.test"
	p31Other = "other.test"
)

// newPKI makes two authorities and certificates for a purpose.
func newPKI(use, wrong x509.ExtKeyUsage) *pki {
	const day = 24 * time.Hour
	p := &pki{}
	p.a = pkiMake("ca-a", "Authority A", true, nil, nil, -day, day)
	p.b = pkiMake("ca-b", "Authority B", true, nil, nil, -day, day)
	fake := pkiMake("ca-fake", "Authority A", true, nil, nil, -day, day)
	mid := pkiMake("ca-mid", "Intermediate", true, p.a, nil, -day, day)
	all := []string{p31Good, "localhost", "127.0.0.1"}
	add := func(name string, issuer *pkiCert, names []string, from, to time.Duration, uses ...x509.ExtKeyUsage) *pkiCert {
		c := pkiMake(name, "end", false, issuer, names, from, to, uses...)
		p.certs = append(p.certs, c)
		return c
	}
	good := add("a-all", p.a, all, -day, day, use)
	add("a-good", p.a, []string{p31Good}, -day, day, use)
	add("a-other", p.a, []string{p31Other}, -day, day, use)
	add("a-localhost", p.a, []string{"localhost"}, -day, day, use)
	add("a-ip", p.a, []string{"127.0.0.1"}, -day, day, use)
	add("b-all", p.b, all, -day, day, use)
	add("self", nil, all, -day, day, use)
	add("a-expired", p.a, all, -2*day, -day, use)
	add("a-future", p.a, all, day, 2*day, use)
	add("a-purpose", p.a, all, -day, day, wrong)
	add("a-both", p.a, all, -day, day, use, wrong)
	add("fake-all", fake, all, -day, day, use)
	c := add("mid-sent", mid, all, -day, day, use)
	c.chain = append(c.chain, mid.chain[0])
	add("mid-missing", mid, all, -day, day, use)
	c = add("under-end", good, all, -day, day, use)
	c.chain = append(c.chain, good.chain[0])
	return p
}

func (p *pki) cert(name string) *pkiCert {
	for _, c := range p.certs {
		if c.name == name {
			return c
		}
	}
	panic(name)
}

var p31Roots = []string{"a", "b", "ab", ""}

// roots are the authorities called by a name, and the file they are in.
func (p *pki) roots(which, dir string) ([]*pkiCert, string) {
	var out []*pkiCert
	var b bytes.Buffer
	for _, r := range which {
		c := p.a
		if r == 'b' {
			c = p.b
		}
		out = append(out, c)
		pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: c.chain[0]})
	}
	if out == nil {
		return nil, ""
	}
	n := filepath.Join(dir, "roots-"+which+".pem")
	if err := os.WriteFile(n, b.Bytes(), 0o600); err != nil {
		panic(err)
	}
	return out, n
}

// p31Server is an upstream server that remembers the queries it has seen.
type p31Server struct {
	mu      sync.Mutex
	seen    map[string]bool
	closers []func()
	over    bool
}

func (s *p31Server) saw(name string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.seen[name]
}

func (s *p31Server) onClose(f func()) {
	s.mu.Lock()
	over := s.over
	s.closers = append(s.closers, f)
	s.mu.Unlock()
	if over {
		f()
	}
}

func (s *p31Server) close() {
	s.mu.Lock()
	s.over = true
	fs := s.closers
	s.mu.Unlock()
	for i := len(fs) - 1; i >= 0; i-- {
		fs[i]()
	}
}

func (s *p31Server) answer(b []byte) []byte {
	q := new(dns.Msg)
	if q.Unpack(b) != nil || len(q.Question) != 1 {
		return nil
	}
	s.mu.Lock()
	s.seen[q.Question[0].Name] = true
	s.mu.Unlock()
	a := reply(q, 0)
	a.Answer = rrs(fmt.Sprintf("%s 60 IN TXT %q", q.Question[0].Name, "authentic"))
	out, err := a.Pack()
	if err != nil {
		return nil
	}
	return out
}

func p31Frame(b []byte) []byte {
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...)
}

func (s *p31Server) stream(c io.ReadWriteCloser) {
	s.onClose(func() { c.Close() })
	defer c.Close()
	for {
		var l [2]byte
		if _, err := io.ReadFull(c, l[:]); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint16(l[:]))
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		a := s.answer(b)
		if a == nil {
			return
		}
		if _, err := c.Write(p31Frame(a)); err != nil {
			return
		}
	}
}

func (s *p31Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var b []byte
	if r.Method == "GET" {
		b, _ = base64.RawURLEncoding.DecodeString(r.URL.Query().Get("dns"))
	} else {
		b, _ = io.ReadAll(r.Body)
	}
	a := s.answer(b)
	if a == nil {
		http.Error(w, "bad query", 400)
		return
	}
	w.Header().Set("Content-Type", "application/dns-message")
	w.Write(a)
}

// p31Serve starts a server of a kind with a certificate; want are the
// authorities clients have to have a certificate of.
func p31Serve(kind, addr string, cert *pkiCert, want *pkiCert) (*p31Server, string, error) {
	s := &p31Server{seen: map[string]bool{}}
	cfg := &tls.Config{Certificates: []tls.Certificate{cert.tls()}}
	if want != nil {
		cfg.ClientAuth, cfg.ClientCAs = tls.RequireAndVerifyClientCert, x509.NewCertPool()
		cfg.ClientCAs.AddCert(want.leaf)
	}
	switch {
	case kind == "dot":
		ln, err := tls.Listen("tcp", addr, cfg)
		if err != nil {
			return nil, "", err
		}
		s.onClose(func() { ln.Close() })
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go s.stream(c)
			}
		}()
		return s, ln.Addr().String(), nil
	case kind == "doh-get", kind == "doh-post":
		ln, err := net.Listen("tcp", addr)
		if err != nil {
			return nil, "", err
		}
		srv := &http.Server{Handler: s, TLSConfig: cfg, ErrorLog: log.New(io.Discard, "", 0)}
		s.onClose(func() { srv.Close() })
		go srv.ServeTLS(ln, "", "")
		return s, ln.Addr().String(), nil
	case kind == "dtls":
		ua, err := net.ResolveUDPAddr("udp", addr)
		if err != nil {
			return nil, "", err
		}
		dc := &dtls.Config{Certificates: cfg.Certificates}
		if want != nil {
			dc.ClientAuth, dc.ClientCAs = dtls.RequireAndVerifyClientCert, cfg.ClientCAs
		}
		ln, err := dtls.Listen("udp", ua, dc)
		if err != nil {
			return nil, "", err
		}
		s.onClose(func() { ln.Close() })
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					s.onClose(func() { c.Close() })
					defer c.Close()
					b := make([]byte, 65536)
					for {
						n, err := c.Read(b) // the length prefix is in the record
						if err != nil {
							return
						}
						if n < 2 {
							continue
						}
						if a := s.answer(b[2:n]); a != nil {
							c.Write(p31Frame(a))
						}
					}
				}()
			}
		}()
		return s, ln.Addr().String(), nil
	}
	pc, err := net.ListenPacket("udp", addr)
	if err != nil {
		return nil, "", err
	}
	early := strings.HasSuffix(kind, "-0rtt")
	tr := &quic.Transport{Conn: pc.(*net.UDPConn)}
	s.onClose(func() { tr.Close(); pc.Close() })
	qc := &quic.Config{MaxIdleTimeout: time.Minute, Allow0RTT: early}
	if strings.HasPrefix(kind, "doq") {
		cfg.NextProtos = []string{"doq"}
	} else {
		cfg.NextProtos = []string{"h3"}
	}
	var accept func(context.Context) (*quic.Conn, error)
	if early {
		ln, err := tr.ListenEarly(cfg, qc)
		if err != nil {
			return nil, "", err
		}
		accept = ln.Accept
	} else {
		ln, err := tr.Listen(cfg, qc)
		if err != nil {
			return nil, "", err
		}
		accept = ln.Accept
	}
	h3 := &http3.Server{Handler: s}
	go func() {
		for {
			c, err := accept(context.Background())
			if err != nil {
				return
			}
			s.onClose(func() { c.CloseWithError(0, "") })
			go func() {
				if strings.HasPrefix(kind, "doh3") {
					h3.ServeQUICConn(c)
					return
				}
				for {
					st, err := c.AcceptStream(context.Background())
					if err != nil {
						return
					}
					go func() {
						b, err := io.ReadAll(st)
						if err != nil || len(b) < 2 {
							return
						}
						if a := s.answer(b[2:]); a != nil {
							st.Write(p31Frame(a))
						}
						st.Close()
					}()
				}
			}()
		}
	}()
	return s, pc.LocalAddr().String(), nil
}

// p31Ways are settings for how to reach a server.
var p31Ways = map[string]string{
	"":      "",
	"local": "local-address = \"127.0.0.1\"\n",
	"dual":  "local-address-v4 = \"127.0.0.1\"\nlocal-address-v6 = \"::1\"\n",
}

// p31Resolver is the configuration of a client of a server of a kind.
func p31Resolver(id, kind, addr, host, name, ca, crt, key string) string {
	_, port, _ := net.SplitHostPort(addr)
	s := fmt.Sprintf("[resolvers.%s]\nquery-timeout = 5\n", id)
	target := net.JoinHostPort(host, port)
	switch k, _, _ := strings.Cut(kind, "-0rtt"); k {
	case "doh-get":
		s += fmt.Sprintf("protocol = \"doh\"\naddress = \"https://%s/dns-query{?dns}\"\ndoh = {method = \"GET\"}\n", target)
	case "doh-post":
		s += fmt.Sprintf("protocol = \"doh\"\naddress = \"https://%s/dns-query\"\n", target)
	case "doh3":
		s += fmt.Sprintf("protocol = \"doh\"\ntransport = \"quic\"\naddress = \"https://%s/dns-query{?dns}\"\n", target)
	default:
		s += fmt.Sprintf("protocol = %q\naddress = %q\n", k, target)
	}
	if strings.HasSuffix(kind, "-0rtt") {
		s += "enable-0rtt = true\n"
	}
	for o, v := range map[string]string{"server-name": name, "ca": ca, "client-crt": crt, "client-key": key} {
		if v != "" {
			s += fmt.Sprintf("%s = %q\n", o, v)
		}
	}
	if host != "127.0.0.1" && host != "localhost" {
		s += "bootstrap-address = \"127.0.0.1\"\n"
	}
	return s
}

// p31Routes sends queries for id.test to the resolver with the id.
func p31Routes(port int, ids []string) string {
	s := cfgListener("l", port, "route") + "[routers.route]\nroutes = [\n"
	for _, id := range ids {
		s += fmt.Sprintf("{name = '(^|\\.)%s\\.test\\.$', resolver = %q},\n", id, id)
	}
	return s + "]\n"
}

// p31Ask sends a query and says whether there was an answer.
func p31Ask(port int, name string, d time.Duration) (bool, error) {
	conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return false, err
	}
	defer conn.Close()
	q := query(name, dns.TypeTXT)
	b, err := q.Pack()
	if err != nil {
		return false, err
	}
	if _, err := conn.Write(b); err != nil {
		return false, err
	}
	conn.SetReadDeadline(time.Now().Add(d))
	buf := make([]byte, 4096)
	n, err := conn.Read(buf)
	if err != nil {
		return false, err
	}
	a := new(dns.Msg)
	if err := a.Unpack(buf[:n]); err != nil {
		return false, err
	}
	return a.Rcode == 0 && len(a.Answer) == 1, nil
}

type p31Client struct {
	id, desc string
	want     bool
	srv      *p31Server
}

// p31Judge asks through a client. Reports what is wrong.
func p31Judge(port int, cl p31Client) string {
	var last string
	for try := 0; try < 4; try++ {
		name := fmt.Sprintf("q%d.%s.test.", try, cl.id)
		ok, err := p31Ask(port, name, 20*time.Second)
		saw := cl.srv.saw(name)
		switch {
		case ok && !cl.want:
			return "an answer was accepted from a server that is not authentic"
		case saw && !cl.want:
			return "the query was sent to a server that is not authentic"
		case ok && !saw:
			return "there is an answer although the server saw no query"
		case ok:
			return ""
		case !cl.want:
			return ""
		}
		last = fmt.Sprintf("no answer from an authentic server (%v)", err)
	}
	return last
}

func p31All(n int, f func(int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for i := 0; i < 24; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

// p31Clients runs the program with clients for all names and servers.
func p31Clients(kind, root, way string) func(*C) {
	return func(c *C) {
		env := newCfgEnv(c)
		if env == nil {
			return
		}
		defer env.close()
		p := newPKI(x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth)
		roots, file := p.roots(root, env.dir)
		var clients []p31Client
		var text string
		var ids []string
		for _, cert := range p.certs {
			for _, host := range []string{"127.0.0.1", "localhost", p31Good} {
				for _, name := range []string{"", p31Good, p31Other, "localhost"} {
					srv, addr, err := p31Serve(kind, "127.0.0.1:0", cert, nil)
					if err != nil {
						c.ToolError("%v", err)
						return
					}
					defer srv.close()
					effective := name
					if name == "" {
						effective = host
					}
					want := roots != nil && cert.valid(roots, effective, x509.ExtKeyUsageServerAuth)
					id := fmt.Sprintf("r%d", len(clients))
					clients = append(clients, p31Client{id: id, want: want, srv: srv,
						desc: fmt.Sprintf("%s %s client trusting %q, address %s, server name %q, server certificate %s", kind, way, root, host, name, cert.name)})
					text += p31Resolver(id, kind, addr, host, name, file, "", "") + p31Ways[way]
					ids = append(ids, id)
				}
			}
		}
		// Clients with certificates of their own.
		if root == "a" {
			q := newPKI(x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth)
			for _, mine := range []string{"", "a-all", "b-all"} {
				srv, addr, err := p31Serve(kind, "127.0.0.1:0", p.cert("a-all"), q.a)
				if err != nil {
					c.ToolError("%v", err)
					return
				}
				defer srv.close()
				var crt, key string
				if mine != "" {
					cl := *q.cert(mine)
					cl.name = "client-" + cl.name
					crt, key = cl.write(env.dir)
				}
				id := fmt.Sprintf("r%d", len(clients))
				clients = append(clients, p31Client{id: id, want: mine == "a-all", srv: srv, desc: fmt.Sprintf("%s client with certificate %q", kind, mine)})
				text += p31Resolver(id, kind, addr, "127.0.0.1", "", file, crt, key)
				ids = append(ids, id)
			}
		}
		port := env.ports[0]
		bad := make([]string, len(clients))
		started, out, wrong := env.run([]string{p31Routes(port, ids) + text}, 0, func(func(int, string) (*dns.Msg, error)) string {
			p31All(len(clients), func(i int) { bad[i] = p31Judge(port, clients[i]) })
			return ""
		})
		if !started || wrong != "" {
			c.Case(fmt.Sprintf("%s clients trusting %q", kind, root))
			c.Violation("the program does not run: %s %s", out, wrong)
			return
		}
		for i, cl := range clients {
			c.Case(cl.desc)
			c.Step()
			c.State("%v %v", cl.want, bad[i])
			if bad[i] != "" {
				c.Violation("%s", bad[i])
			}
		}
	}
}

// p31Restart runs clients through all histories of a server being replaced by
// another one at its address.
func p31Restart(kind string, depth int) func(*C) {
	return func(c *C) {
		env := newCfgEnv(c)
		if env == nil {
			return
		}
		defer env.close()
		p := newPKI(x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth)
		roots, file := p.roots("a", env.dir)
		certs := []string{"a-all", "b-all", "a-other"}
		var hists [][]int
		tuples(len(certs), depth, func(t []int) { hists = append(hists, append([]int(nil), t...)) })
		var text string
		var ids, addrs []string
		var first []*p31Server
		for i, h := range hists {
			srv, addr, err := p31Serve(kind, "127.0.0.1:0", p.cert(certs[h[0]]), nil)
			if err != nil {
				c.ToolError("%v", err)
				return
			}
			ids, addrs, first = append(ids, fmt.Sprintf("r%d", i)), append(addrs, addr), append(first, srv)
			text += p31Resolver(ids[i], kind, addr, "localhost", p31Good, file, "", "")
		}
		port := env.ports[0]
		bad := make([]string, len(hists))
		started, out, wrong := env.run([]string{p31Routes(port, ids) + text}, 0, func(func(int, string) (*dns.Msg, error)) string {
			p31All(len(hists), func(i int) {
				srv := first[i]
				defer func() { srv.close() }()
				for n, k := range hists[i] {
					cert := p.cert(certs[k])
					if n > 0 {
						srv.close()
						var err error
						for end := time.Now().Add(10 * time.Second); ; time.Sleep(20 * time.Millisecond) {
							if srv, _, err = p31Serve(kind, addrs[i], cert, nil); err == nil {
								break
							}
							srv = first[i]
							if time.Now().After(end) {
								bad[i] = "tool: " + err.Error()
								return
							}
						}
					}
					want := cert.valid(roots, p31Good, x509.ExtKeyUsageServerAuth)
					// A lost connection may be noticed by a query only.
					tries := 2
					if want {
						tries = 8
					}
					answered := false
					for try := 0; try < tries && !answered; try++ {
						name := fmt.Sprintf("s%d-%d.%s.test.", n, try, ids[i])
						ok, _ := p31Ask(port, name, 20*time.Second)
						if !want && ok {
							bad[i] = fmt.Sprintf("step %d: an answer was accepted from a server that is not authentic", n)
							return
						}
						if !want && srv.saw(name) {
							bad[i] = fmt.Sprintf("step %d: the query was sent to a server that is not authentic", n)
							return
						}
						if answered = ok; !ok && want {
							time.Sleep(100 * time.Millisecond)
						}
					}
					if want && !answered {
						bad[i] = fmt.Sprintf("step %d: no answer from an authentic server", n)
						return
					}
				}
			})
			return ""
		})
		if !started || wrong != "" {
			c.Case(fmt.Sprintf("%s clients", kind))
			c.Violation("the program does not run: %s %s", out, wrong)
			return
		}
		for i, h := range hists {
			var d []string
			for _, k := range h {
				d = append(d, certs[k])
				c.Step()
			}
			c.Case(fmt.Sprintf("%s client of servers with certificates %s", kind, strings.Join(d, ", ")))
			c.State("%v %v", h, bad[i])
			if strings.HasPrefix(bad[i], "tool: ") {
				c.ToolError("%s", bad[i])
			} else if bad[i] != "" {
				c.Violation("%s", bad[i])
			}
		}
	}
}

type p31Listener struct {
	name, text string
	udp        bool
	ask        func(addr string, cfg *tls.Config) error
}

func p31Exchange(rw io.ReadWriter) error {
	b, err := query("x.test.", dns.TypeTXT).Pack()
	if err != nil {
		return err
	}
	if _, err := rw.Write(p31Frame(b)); err != nil {
		return err
	}
	if c, ok := rw.(*quic.Stream); ok {
		c.Close()
	}
	buf := make([]byte, 4096)
	n := 0
	for n < 2 || n < 2+int(binary.BigEndian.Uint16(buf)) {
		k, err := rw.Read(buf[n:])
		n += k
		if err != nil && (n < 2 || n < 2+int(binary.BigEndian.Uint16(buf))) {
			return err
		}
	}
	return p31Check(buf[2:n])
}

func p31Check(b []byte) error {
	a := new(dns.Msg)
	if err := a.Unpack(b); err != nil {
		return err
	}
	if a.Rcode != 0 || len(a.Answer) != 1 {
		return errors.New("not the answer")
	}
	return nil
}

func p31Get(cl *http.Client, addr, path string, isDNS bool) error {
	u := "https://" + addr + path
	if isDNS {
		b, err := query("x.test.", dns.TypeTXT).Pack()
		if err != nil {
			return err
		}
		u += "?dns=" + base64.RawURLEncoding.EncodeToString(b)
	}
	resp, err := cl.Get(u)
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return err
	}
	if resp.StatusCode != 200 {
		return errors.New(resp.Status)
	}
	if isDNS {
		return p31Check(b)
	}
	return nil
}

func p31HTTP(path string, isDNS, q bool) func(string, *tls.Config) error {
	return func(addr string, cfg *tls.Config) error {
		if q {
			tr := &http3.Transport{TLSClientConfig: cfg, QUICConfig: &quic.Config{HandshakeIdleTimeout: 10 * time.Second}}
			defer tr.Close()
			return p31Get(&http.Client{Transport: tr, Timeout: 20 * time.Second}, addr, path, isDNS)
		}
		tr := &http.Transport{TLSClientConfig: cfg, ForceAttemptHTTP2: true}
		defer tr.CloseIdleConnections()
		return p31Get(&http.Client{Transport: tr, Timeout: 20 * time.Second}, addr, path, isDNS)
	}
}

func p31Listeners() []p31Listener {
	return []p31Listener{
		{name: "dot", text: "protocol = \"dot\"\n", ask: func(addr string, cfg *tls.Config) error {
			c, err := tls.DialWithDialer(&net.Dialer{Timeout: 20 * time.Second}, "tcp", addr, cfg)
			if err != nil {
				return err
			}
			defer c.Close()
			c.SetDeadline(time.Now().Add(20 * time.Second))
			return p31Exchange(c)
		}},
		{name: "dtls", text: "protocol = \"dtls\"\n", udp: true, ask: func(addr string, cfg *tls.Config) error {
			ua, err := net.ResolveUDPAddr("udp", addr)
			if err != nil {
				return err
			}
			dc := &dtls.Config{RootCAs: cfg.RootCAs, ServerName: cfg.ServerName}
			if cfg.GetClientCertificate != nil {
				dc.GetClientCertificate = func(*dtls.CertificateRequestInfo) (*tls.Certificate, error) {
					return cfg.GetClientCertificate(nil)
				}
			}
			c, err := dtls.Dial("udp", ua, dc)
			if err != nil {
				return err
			}
			defer c.Close()
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			if err := c.HandshakeContext(ctx); err != nil {
				return err
			}
			c.SetDeadline(time.Now().Add(20 * time.Second))
			return p31Exchange(c)
		}},
		{name: "doh", text: "protocol = \"doh\"\n", ask: p31HTTP("/dns-query", true, false)},
		{name: "doh3", text: "protocol = \"doh\"\ntransport = \"quic\"\n", udp: true, ask: p31HTTP("/dns-query", true, true)},
		{name: "odoh", text: "protocol = \"odoh\"\nallow-doh = true\n", ask: p31HTTP("/dns-query", true, false)},
		{name: "admin", text: "protocol = \"admin\"\n", ask: p31HTTP("/routedns/vars", false, false)},
		{name: "admin3", text: "protocol = \"admin\"\ntransport = \"quic\"\n", udp: true, ask: p31HTTP("/routedns/vars", false, true)},
		{name: "doq", text: "protocol = \"doq\"\n", udp: true, ask: func(addr string, cfg *tls.Config) error {
			cfg = cfg.Clone()
			cfg.NextProtos = []string{"doq"}
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			c, err := quic.DialAddr(ctx, addr, cfg, &quic.Config{HandshakeIdleTimeout: 10 * time.Second})
			if err != nil {
				return err
			}
			defer c.CloseWithError(0, "")
			st, err := c.OpenStreamSync(ctx)
			if err != nil {
				return err
			}
			st.SetDeadline(time.Now().Add(20 * time.Second))
			return p31Exchange(st)
		}},
	}
}

const p31Static = "[groups.static]\ntype = \"static-template\"\nanswer = ['{{ .Question }} 60 IN TXT \"x\"']\n"

// p31Mutual runs a listener of a kind with all settings and all kinds of
// clients.
func p31Mutual(l p31Listener) func(*C) {
	return func(c *C) {
		env := newCfgEnv(c)
		if env == nil {
			return
		}
		defer env.close()
		sp := newPKI(x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth)
		cp := newPKI(x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth)
		crt, key := sp.cert("a-all").write(env.dir)
		text := cfgListener("l", env.ports[0], "static") + p31Static
		var ports []int
		for p := 20000 + os.Getpid()%1000*8; len(ports) < 5; p++ {
			a := fmt.Sprintf("127.0.0.1:%d", p)
			u, err := net.ListenPacket("udp", a)
			if err != nil {
				continue
			}
			u.Close()
			t, err := net.Listen("tcp", a)
			if err != nil {
				continue
			}
			t.Close()
			ports = append(ports, p)
		}
		type cas struct {
			desc string
			want bool
			port int
			cfg  *tls.Config
		}
		var cases []cas
		for i, s := range []struct {
			mutual bool
			root   string
		}{{false, ""}, {false, "a"}, {true, "a"}, {true, "b"}, {true, "ab"}} {
			roots, file := cp.roots(s.root, env.dir)
			text += fmt.Sprintf("[listeners.l%d]\naddress = \"127.0.0.1:%d\"\nresolver = \"static\"\nserver-crt = %q\nserver-key = %q\nmutual-tls = %v\n%s", i, ports[i], crt, key, s.mutual, l.text)
			if file != "" {
				text += fmt.Sprintf("ca = %q\n", file)
			}
			for j := -1; j < len(cp.certs); j++ {
				cfg := &tls.Config{RootCAs: x509.NewCertPool(), ServerName: p31Good}
				cfg.RootCAs.AddCert(sp.a.leaf)
				name, want := "none", !s.mutual
				if j >= 0 {
					cert := cp.certs[j]
					tc := cert.tls()
					cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &tc, nil }
					name, want = cert.name, want || cert.valid(roots, "", x509.ExtKeyUsageClientAuth)
				}
				cases = append(cases, cas{fmt.Sprintf("%s listener, mutual TLS %v trusting %q, client certificate %s", l.name, s.mutual, s.root, name), want, ports[i], cfg})
			}
		}
		bad := make([]string, len(cases))
		started, out, wrong := env.run([]string{text}, 0, func(func(int, string) (*dns.Msg, error)) string {
			for _, p := range ports {
				for end := time.Now().Add(10 * time.Second); ; time.Sleep(5 * time.Millisecond) {
					if l.udp && cfgBound(p) {
						break
					}
					if !l.udp {
						if t, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", p)); err == nil {
							t.Close()
							break
						}
					}
					if time.Now().After(end) {
						return "a listener does not start"
					}
				}
			}
			p31All(len(cases), func(i int) {
				addr := fmt.Sprintf("127.0.0.1:%d", cases[i].port)
				for try := 0; try < 3; try++ {
					err := l.ask(addr, cases[i].cfg)
					bad[i] = ""
					if err == nil && !cases[i].want {
						bad[i] = "a client without a certificate that is required was answered"
						return
					}
					if err != nil && cases[i].want {
						bad[i] = fmt.Sprintf("a client with all that is required was not answered: %v", err)
						continue
					}
					return
				}
			})
			return ""
		})
		if !started || wrong != "" {
			c.Case(fmt.Sprintf("%s listeners", l.name))
			c.Violation("the program does not run: %s %s", out, wrong)
			return
		}
		for i, cs := range cases {
			c.Case(cs.desc)
			c.Step()
			c.State("%v %v", cs.want, bad[i])
			if bad[i] != "" {
				c.Violation("%s", bad[i])
			}
		}
	}
}

// p31Refused: settings that cannot be honoured keep the program from starting.
func p31Refused(part, parts int) func(*C) {
	return func(c *C) {
		env := newCfgEnv(c)
		if env == nil {
			return
		}
		defer env.close()
		p := newPKI(x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth)
		crt, key := p.cert("a-all").write(env.dir)
		_, key2 := p.cert("a-good").write(env.dir)
		_, ca := p.roots("a", env.dir)
		file := func(name, s string) string {
			n := filepath.Join(env.dir, name)
			if err := os.WriteFile(n, []byte(s), 0o600); err != nil {
				panic(err)
			}
			return n
		}
		empty, garbage, none := file("empty", ""), file("garbage", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"), filepath.Join(env.dir, "none")
		n := 0
		try := func(want bool, desc, text string) {
			n++
			if n%parts != part {
				return
			}
			c.Case(desc)
			c.Step()
			started, out, bad := env.run([]string{cfgListener("l", env.ports[0], "static") + p31Static + text}, 0, nil)
			c.State("%v %s", started, bad)
			switch {
			case bad != "":
				c.Violation("%s", bad)
			case started && !want:
				c.Violation("the program starts with settings it cannot honour")
			case !started && want:
				c.Violation("the program does not start: %s", out)
			}
		}
		for _, l := range p31Listeners() {
			for _, f := range []struct {
				name, ca string
				mutual   bool
				want     bool
			}{{"mutual TLS and no authorities", "", true, false}, {"authorities", ca, true, true}, {"authorities in a missing file", none, true, false}, {"authorities in an empty file", empty, true, false},
				{"authorities in a broken file", garbage, true, false}, {"authorities in a key file", key, true, false}, {"a missing file of authorities", none, false, false}, {"an empty file of authorities", empty, false, false}} {
				s := fmt.Sprintf("[listeners.x]\naddress = \"127.0.0.1:%d\"\nresolver = \"static\"\nserver-crt = %q\nserver-key = %q\nmutual-tls = %v\n%s", env.ports[1], crt, key, f.mutual, l.text)
				if f.ca != "" {
					s += fmt.Sprintf("ca = %q\n", f.ca)
				}
				try(f.want, l.name+" listener with "+f.name, s)
			}
			for _, f := range [][3]string{{"missing certificate", none, key}, {"missing key", crt, none}, {"key of another certificate", crt, key2}, {"empty certificate", empty, key}, {"empty key", crt, empty}} {
				try(false, l.name+" listener with "+f[0], fmt.Sprintf("[listeners.x]\naddress = \"127.0.0.1:%d\"\nresolver = \"static\"\nserver-crt = %q\nserver-key = %q\n%s", env.ports[1], f[1], f[2], l.text))
			}
		}
		for _, k := range []string{"dot", "doh-post", "doh-get", "doh3", "doq", "dtls"} {
			for _, f := range [][4]string{{"no trouble", ca, crt, key}, {"authorities in a missing file", none, "", ""}, {"authorities in an empty file", empty, "", ""}, {"authorities in a broken file", garbage, "", ""},
				{"authorities in a key file", key, "", ""}, {"missing certificate", ca, none, key}, {"missing key", ca, crt, none}, {"key of another certificate", ca, crt, key2}} {
				try(f[0] == "no trouble", k+" client with "+f[0], p31Resolver("x", k, "127.0.0.1:853", "127.0.0.1", "", f[1], f[2], f[3]))
			}
		}
	}
}

func init() {
	register(&Check{
		ID:    "P31",
		Level: "model_checking",
		Rule:  "a case is a configuration of the program together with a peer, or a history of peers at an address; a state is a distinct verdict",
		Assumptions: []string{"certificate chains are judged by the standard library's verifier, given the authorities, name and purpose of the configuration",
			"certificates of one key type; no revocation", "none of the authorities the system trusts is used by a peer"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			depth := 4
			if tier == "thorough" {
				depth = 5
			}
			kinds := []string{"dot", "doh-post", "doh-get", "doh3", "doq", "dtls"}
			for _, k := range append(kinds, "doq-0rtt", "doh3-0rtt") {
				out = append(out, Scenario{Name: "restart-" + k, Run: p31Restart(k, depth)})
			}
			for _, k := range kinds {
				for _, r := range p31Roots {
					for _, w := range []string{"", "local", "dual"} {
						out = append(out, Scenario{Name: fmt.Sprintf("client-%s-%s-%s", k, r, w), Run: p31Clients(k, r, w)})
					}
				}
			}
			for _, l := range p31Listeners() {
				out = append(out, Scenario{Name: "mutual-" + l.name, Run: p31Mutual(l)})
			}
			for i := 0; i < 8; i++ {
				out = append(out, Scenario{Name: fmt.Sprintf("refused-%d", i), Run: p31Refused(i, 8)})
			}
			return out
		},
	})
}
