package main

import (
	"context"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"crypto/tls"

	"github.com/cisco/go-hpke"
	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// p29: clients against servers that misbehave. The first label of the name
// says what the server does with the query.

// p29Act is what a server sends back for a query.
type p29Act struct {
	name  string
	kinds string // transports it applies to, all if empty: d(atagram) s(tream) h(ttp) q(uic) o(blivious)
	// msgs are the messages sent in order.
	msgs func(q *dns.Msg) [][]byte
	// after: what happens then: "" nothing, "close", "reset", "hang"
	after string
	// status and content type over HTTP
	status int
	ctype  string
	// frame overrides the length prefix.
	frame int
	// must: "answer" has to be given, "error" has to be reported, "" either.
	must string
}

func p29Good(q *dns.Msg) *dns.Msg {
	a := reply(q, 0, rr(q.Question[0].Name+" 60 IN A 1.2.3.4"), rr(q.Question[0].Name+" 60 IN A 1.2.3.5"))
	a.RecursionAvailable = true
	return a
}

func p29Acts() []p29Act {
	pack := func(m *dns.Msg) []byte {
		b, err := m.Pack()
		if err != nil {
			panic(err)
		}
		return b
	}
	good := func(q *dns.Msg) []byte { return pack(p29Good(q)) }
	edit := func(f func(a *dns.Msg)) func(q *dns.Msg) [][]byte {
		return func(q *dns.Msg) [][]byte {
			a := p29Good(q)
			f(a)
			return [][]byte{pack(a)}
		}
	}
	bogus := func(q *dns.Msg) []byte { // an answer to another question
		o := q.Copy()
		o.Question[0].Name = "evil.test."
		return pack(reply(o, 0, rr("evil.test. 60 IN A 6.6.6.6")))
	}
	otherID := func(q *dns.Msg) []byte {
		a := p29Good(q)
		a.Id ^= 0x5555
		a.Answer = rrs(q.Question[0].Name + " 60 IN A 6.6.6.6")
		return pack(a)
	}
	none := func(q *dns.Msg) [][]byte { return nil }
	raw := func(b ...byte) func(q *dns.Msg) [][]byte { return func(q *dns.Msg) [][]byte { return [][]byte{b} } }
	return []p29Act{
		{name: "good", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, must: "answer"},
		{name: "rcode", msgs: edit(func(a *dns.Msg) { a.Rcode = 3 }), must: "answer"},
		{name: "othercase", msgs: edit(func(a *dns.Msg) { a.Question[0].Name = strings.ToUpper(a.Question[0].Name) }), must: "answer"},
		{name: "wrongid", kinds: "ds", msgs: func(q *dns.Msg) [][]byte { return [][]byte{otherID(q)} }, must: "error"},
		{name: "zeroid", kinds: "hqo", msgs: edit(func(a *dns.Msg) { a.Id = 0 }), must: "answer"},
		{name: "otherid", kinds: "hqo", msgs: edit(func(a *dns.Msg) { a.Id ^= 0x5555 }), must: "answer"},
		{name: "wrongname", msgs: edit(func(a *dns.Msg) { a.Question[0].Name = "evil.test." }), must: "error"},
		{name: "subname", msgs: edit(func(a *dns.Msg) { a.Question[0].Name = "sub." + a.Question[0].Name }), must: "error"},
		{name: "wrongtype", msgs: edit(func(a *dns.Msg) { a.Question[0].Qtype = dns.TypeAAAA }), must: "error"},
		{name: "wrongclass", msgs: edit(func(a *dns.Msg) { a.Question[0].Qclass = dns.ClassCHAOS }), must: "error"},
		{name: "noquestion", msgs: edit(func(a *dns.Msg) { a.Question = nil }), must: "error"},
		{name: "echo", msgs: func(q *dns.Msg) [][]byte { return [][]byte{pack(q)} }, must: "error"},
		{name: "unanswered", msgs: edit(func(a *dns.Msg) { a.Response = false }), must: "error"},
		{name: "headercut", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)[:7]} }, must: "error"},
		{name: "questioncut", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)[:16]} }, must: "error"},
		{name: "recordcut", msgs: func(q *dns.Msg) [][]byte { b := good(q); return [][]byte{b[:len(b)-2]} }},
		{name: "trailing", msgs: func(q *dns.Msg) [][]byte { return [][]byte{append(good(q), 1, 2, 3)} }},
		{name: "garbage", msgs: raw([]byte(strings.Repeat("\xff", 40))...), must: "error"},
		{name: "byte", msgs: raw(0), must: "error"},
		{name: "empty", msgs: raw(), must: "error"},
		{name: "loop", msgs: func(q *dns.Msg) [][]byte {
			b := append(good(q)[:12], 0xc0, 0x0c, 0, 1, 0, 1)
			return [][]byte{b}
		}, must: "error"},
		{name: "twice", kinds: "dsq", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q), good(q)} }, must: "answer"},
		{name: "idfirst", kinds: "ds", msgs: func(q *dns.Msg) [][]byte { return [][]byte{otherID(q), good(q)} }, must: "answer"},
		{name: "bogusafter", kinds: "dsq", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q), bogus(q)} }, must: "answer"},
		{name: "bogusfirst", kinds: "ds", msgs: func(q *dns.Msg) [][]byte { return [][]byte{bogus(q), good(q)} }},
		{name: "silence", msgs: none, after: "hang", must: "error"},
		{name: "close", kinds: "shqo", msgs: none, after: "close", must: "error"},
		{name: "reset", kinds: "shqo", msgs: none, after: "reset", must: "error"},
		{name: "goodclose", kinds: "shqo", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, after: "close"},
		{name: "framelong", kinds: "sq", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, frame: 1, after: "close", must: "error"},
		{name: "framehang", kinds: "sqho", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, frame: 1, after: "hang", must: "error"},
		{name: "frameshort", kinds: "sq", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, frame: -4, after: "close"},
		{name: "status400", kinds: "ho", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, status: 400, must: "error"},
		{name: "status404", kinds: "ho", msgs: none, status: 404, must: "error"},
		{name: "status500", kinds: "ho", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, status: 500, must: "error"},
		{name: "status302", kinds: "ho", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, status: 302, must: "error"},
		{name: "status204", kinds: "ho", msgs: none, status: 204, must: "error"},
		{name: "html", kinds: "ho", msgs: raw([]byte("<html><body>Captive portal</body></html>")...), ctype: "text/html", must: "error"},
		{name: "oversized", kinds: "ho", msgs: func(q *dns.Msg) [][]byte { return [][]byte{append(good(q), make([]byte, 70000)...)} }, must: "error"},
		{name: "endless", kinds: "ho", msgs: func(q *dns.Msg) [][]byte { return [][]byte{append(good(q), make([]byte, 3<<20)...)} }, must: "error"},
		{name: "full", kinds: "shqo", msgs: func(q *dns.Msg) [][]byte {
			a := p29Good(q)
			for i := 0; i < 240; i++ {
				a.Answer = append(a.Answer, rr(q.Question[0].Name+" 60 IN TXT "+strings.Repeat("z", 230)))
			}
			return [][]byte{pack(a)}
		}, must: "answer"},
		// Only the fetching of the target's key fails, the first time.
		{name: "cfg500", kinds: "o", msgs: none, must: "error"},
		{name: "cfgempty", kinds: "o", msgs: none, must: "error"},
		{name: "cfgnone", kinds: "o", msgs: none, must: "error"},
		{name: "cfggarbage", kinds: "o", msgs: none, must: "error"},
		{name: "cfgshort", kinds: "o", msgs: none, must: "error"},
		{name: "cfgversion", kinds: "o", msgs: none, must: "error"},
		{name: "cfgclose", kinds: "o", msgs: none, must: "error"},
		{name: "cfghang", kinds: "o", msgs: none, must: "error"},
		{name: "cfgbodyhang", kinds: "o", msgs: none, must: "error"},
		{name: "plain", kinds: "o", msgs: func(q *dns.Msg) [][]byte { return [][]byte{good(q)} }, must: "error"},
	}
}

var p29ByName = map[string]p29Act{}

func p29Lookup(q *dns.Msg) p29Act {
	if len(q.Question) == 0 {
		return p29Act{msgs: func(q *dns.Msg) [][]byte { return nil }}
	}
	return p29ByName[strings.ToLower(dns.SplitDomainName(q.Question[0].Name)[0])]
}

// p29Seen collects the queries as they arrive, if set.
var p29Seen chan []byte

func p29Unpack(q *dns.Msg, b []byte) error {
	if p29Seen != nil {
		p29Seen <- append([]byte{}, b...)
	}
	return q.Unpack(b)
}

type p29Kind struct {
	name, kind string
	serve      func() (addr string, stop func())
	client     func(addr string, timeout time.Duration) (rdns.Resolver, func(), error)
}

// Stream and datagram servers

func p29Framed(a p29Act, m []byte) []byte {
	b := frame(m)
	if a.frame != 0 {
		n := len(m) + 100
		if a.frame < 0 {
			n = len(m) + a.frame
		}
		binary.BigEndian.PutUint16(b, uint16(n))
	}
	return b
}

func p29Stream(ln net.Listener) (string, func()) {
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				for {
					var l [2]byte
					if _, err := io.ReadFull(c, l[:]); err != nil {
						return
					}
					b := make([]byte, binary.BigEndian.Uint16(l[:]))
					if _, err := io.ReadFull(c, b); err != nil {
						return
					}
					q := new(dns.Msg)
					if p29Unpack(q, b) != nil {
						return
					}
					a := p29Lookup(q)
					for _, m := range a.msgs(q) {
						c.Write(p29Framed(a, m))
					}
					switch a.after {
					case "close":
						return
					case "reset":
						if t, ok := c.(*net.TCPConn); ok {
							t.SetLinger(0)
						}
						return
					}
				}
			}()
		}
	}()
	return ln.Addr().String(), func() { ln.Close() }
}

func p29Packets(c net.PacketConn) (string, func()) {
	go func() {
		b := make([]byte, 65536)
		for {
			n, peer, err := c.ReadFrom(b)
			if err != nil {
				return
			}
			q := new(dns.Msg)
			if p29Unpack(q, b[:n]) != nil {
				continue
			}
			for _, m := range p29Lookup(q).msgs(q) {
				c.WriteTo(m, peer)
			}
		}
	}()
	return c.LocalAddr().String(), func() { c.Close() }
}

func p29DTLS(ln net.Listener) (string, func()) {
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				b := make([]byte, 65536)
				for {
					n, err := c.Read(b) // the length prefix is in the record
					if err != nil {
						return
					}
					q := new(dns.Msg)
					if n < 2 || p29Unpack(q, b[2:n]) != nil {
						continue
					}
					a := p29Lookup(q)
					for _, m := range a.msgs(q) {
						c.Write(p29Framed(a, m))
					}
					if a.after == "close" || a.after == "reset" {
						return
					}
				}
			}()
		}
	}()
	return ln.Addr().String(), func() { ln.Close() }
}

// HTTP servers

// p29Write answers an HTTP request with what the act says; wrap encrypts.
func p29Write(w http.ResponseWriter, r *http.Request, a p29Act, q *dns.Msg, ctype string, wrap func([]byte) []byte) {
	switch {
	case a.after == "close" && len(a.msgs(q)) == 0, a.after == "reset":
		panic(http.ErrAbortHandler)
	case a.after == "hang" && a.frame == 0:
		<-r.Context().Done()
		return
	}
	if a.ctype != "" {
		ctype = a.ctype
	}
	w.Header().Set("Content-Type", ctype)
	if a.status == 302 {
		w.Header().Set("Location", "/elsewhere")
	}
	var body []byte
	for _, m := range a.msgs(q) {
		if wrap != nil && a.name != "plain" && a.name != "html" && len(m) < 65536 {
			m = wrap(m)
		}
		body = append(body, m...)
	}
	if a.frame != 0 {
		w.Header().Set("Content-Length", fmt.Sprint(len(body)+100))
	}
	if a.status != 0 {
		w.WriteHeader(a.status)
	}
	w.Write(body)
	if a.frame != 0 {
		w.(http.Flusher).Flush()
		<-r.Context().Done()
	}
}

func p29HTTP(w http.ResponseWriter, r *http.Request) {
	if r.URL.Path == "/elsewhere" {
		http.NotFound(w, r)
		return
	}
	var b []byte
	if r.Method == "GET" {
		b, _ = base64.RawURLEncoding.DecodeString(r.URL.Query().Get("dns"))
	} else {
		b, _ = io.ReadAll(r.Body)
	}
	q := new(dns.Msg)
	if p29Unpack(q, b) != nil {
		http.Error(w, "bad query", 400)
		return
	}
	p29Write(w, r, p29Lookup(q), q, "application/dns-message", nil)
}

// p29ODoH serves oblivious queries. The key is asked for with a path chosen by
// the act under test, in cfg.
type p29Oblivious struct {
	key odoh.ObliviousDoHKeyPair
	cfg chan string
}

func (s *p29Oblivious) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.URL.Path == rdns.ODOH_CONFIG_PATH {
		cfg := odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{s.key.Config})
		good := cfg.Marshal()
		act := ""
		select {
		case act = <-s.cfg:
		default:
		}
		switch act {
		case "cfg500":
			http.Error(w, string(good), 500)
		case "cfgempty":
		case "cfgnone":
			w.Write([]byte{0, 0})
		case "cfggarbage":
			w.Write([]byte(strings.Repeat("\xff", 50)))
		case "cfgshort":
			w.Write(good[:len(good)/2])
		case "cfgversion":
			good[2], good[3] = 0xff, 0xff
			w.Write(good)
		case "cfgclose":
			panic(http.ErrAbortHandler)
		case "cfghang":
			<-r.Context().Done()
		case "cfgbodyhang":
			w.Header().Set("Content-Length", fmt.Sprint(len(good)))
			w.Write(good[:4])
			w.(http.Flusher).Flush()
			<-r.Context().Done()
		default:
			w.Write(good)
		}
		return
	}
	if r.URL.Path == "/elsewhere" {
		http.NotFound(w, r)
		return
	}
	b, _ := io.ReadAll(r.Body)
	m, err := odoh.UnmarshalDNSMessage(b)
	if err != nil {
		http.Error(w, "bad query", 400)
		return
	}
	oq, rc, err := s.key.DecryptQuery(m)
	if err != nil {
		http.Error(w, "bad query", 400)
		return
	}
	q := new(dns.Msg)
	if q.Unpack(oq.Message()) != nil {
		http.Error(w, "bad query", 400)
		return
	}
	a := p29Lookup(q)
	if strings.HasPrefix(a.name, "cfg") { // reached although the key should not have been usable
		http.Error(w, "no", 400)
		return
	}
	p29Write(w, r, a, q, rdns.ODOH_CONTENT_TYPE, func(b []byte) []byte {
		e, err := rc.EncryptResponse(odoh.CreateObliviousDNSResponse(b, 0))
		if err != nil {
			panic(err)
		}
		return e.Marshal()
	})
}

// QUIC server

func p29Quic() (string, func()) {
	t := serverTLS()
	t.NextProtos = []string{"doq"}
	ln, err := quic.ListenAddr("127.0.0.1:0", t, &quic.Config{MaxIdleTimeout: time.Minute})
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			conn, err := ln.Accept(context.Background())
			if err != nil {
				return
			}
			go func() {
				for {
					st, err := conn.AcceptStream(context.Background())
					if err != nil {
						return
					}
					go func() {
						b, err := io.ReadAll(st)
						if err != nil || len(b) < 2 {
							return
						}
						q := new(dns.Msg)
						if p29Unpack(q, b[2:]) != nil {
							return
						}
						a := p29Lookup(q)
						for _, m := range a.msgs(q) {
							st.Write(p29Framed(a, m))
						}
						switch a.after {
						case "":
							st.Close()
						case "close":
							if len(a.msgs(q)) > 0 {
								st.Close()
								time.Sleep(5 * time.Millisecond)
							}
							conn.CloseWithError(5, "closing")
						case "reset":
							st.CancelWrite(3)
						}
					}()
				}
			}()
		}
	}()
	return ln.Addr().String(), func() { ln.Close() }
}

func p29Kinds() []p29Kind {
	p := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	dohClient := func(method, transport, path string) func(addr string, timeout time.Duration) (rdns.Resolver, func(), error) {
		return func(addr string, timeout time.Duration) (rdns.Resolver, func(), error) {
			c, err := rdns.NewDoHClient("c", "https://"+addr+path, rdns.DoHClientOptions{Method: method, Transport: transport, TLSConfig: clientTLS(), QueryTimeout: timeout, IdleTimeout: time.Second})
			return c, func() {}, err
		}
	}
	httpServer := func() (string, func()) {
		s := httptest.NewUnstartedServer(http.HandlerFunc(p29HTTP))
		s.TLS = serverTLS()
		s.EnableHTTP2 = true
		s.StartTLS()
		return s.Listener.Addr().String(), func() { s.CloseClientConnections() }
	}
	tcp := func(a string) net.Listener { l, err := net.Listen("tcp", a); p(err); return l }
	return []p29Kind{
		{"udp", "d", func() (string, func()) {
			c, err := net.ListenPacket("udp", "127.0.0.1:0")
			p(err)
			return p29Packets(c)
		},
			func(addr string, t time.Duration) (rdns.Resolver, func(), error) {
				c, err := rdns.NewDNSClient("c", addr, "udp", rdns.DNSClientOptions{QueryTimeout: t})
				return c, func() {}, err
			}},
		{"tcp", "s", func() (string, func()) { return p29Stream(tcp("127.0.0.1:0")) },
			func(addr string, t time.Duration) (rdns.Resolver, func(), error) {
				c, err := rdns.NewDNSClient("c", addr, "tcp", rdns.DNSClientOptions{QueryTimeout: t})
				return c, func() {}, err
			}},
		{"dot", "s", func() (string, func()) { return p29Stream(tls.NewListener(tcp("127.0.0.1:0"), serverTLS())) },
			func(addr string, t time.Duration) (rdns.Resolver, func(), error) {
				c, err := rdns.NewDoTClient("c", addr, rdns.DoTClientOptions{QueryTimeout: t, TLSConfig: clientTLS()})
				return c, func() {}, err
			}},
		{"dtls", "s", func() (string, func()) {
			l, err := dtls.Listen("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}, &dtls.Config{Certificates: []tls.Certificate{certOnce()}})
			p(err)
			return p29DTLS(l)
		},
			func(addr string, t time.Duration) (rdns.Resolver, func(), error) {
				c, err := rdns.NewDTLSClient("c", addr, rdns.DTLSClientOptions{QueryTimeout: t, DTLSConfig: &dtls.Config{InsecureSkipVerify: true, ServerName: "test"}})
				return c, func() {}, err
			}},
		{"doh-post", "h", httpServer, dohClient("POST", "tcp", "/dns-query")},
		{"doh-get", "h", httpServer, dohClient("GET", "tcp", "/dns-query{?dns}")},
		{"doh3", "h", func() (string, func()) {
			u, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
			p(err)
			s := &http3.Server{TLSConfig: http3.ConfigureTLSConfig(serverTLS()), Handler: http.HandlerFunc(p29HTTP)}
			go s.Serve(u)
			return u.LocalAddr().String(), func() { s.Close() }
		}, dohClient("GET", "quic", "/dns-query{?dns}")},
		{"doq", "q", p29Quic, func(addr string, t time.Duration) (rdns.Resolver, func(), error) {
			c, err := rdns.NewDoQClient("c", addr, rdns.DoQClientOptions{QueryTimeout: t, TLSConfig: clientTLS()})
			return c, func() {}, err
		}},
		{"doq-0rtt", "q", p29Quic, func(addr string, t time.Duration) (rdns.Resolver, func(), error) {
			c, err := rdns.NewDoQClient("c", addr, rdns.DoQClientOptions{QueryTimeout: t, TLSConfig: clientTLS(), Use0RTT: true})
			return c, func() {}, err
		}},
		{"odoh", "o", nil, nil},
	}
}

// p29Judge says what is wrong with an outcome.
func p29Judge(act p29Act, q, a *dns.Msg, err error, took, timeout time.Duration) string {
	if took > timeout+3*time.Second {
		return fmt.Sprintf("took %v with a timeout of %v", took, timeout)
	}
	if err != nil {
		if act.must == "answer" {
			return "failed: " + err.Error()
		}
		return ""
	}
	if a == nil {
		return "neither response nor error"
	}
	if act.must == "error" {
		return "accepted " + full(a)
	}
	if a.Id != q.Id {
		return fmt.Sprintf("response has ID %d, the query %d", a.Id, q.Id)
	}
	if !a.Response && act.must != "" || len(a.Question) != 1 || !strings.EqualFold(a.Question[0].Name, q.Question[0].Name) || a.Question[0].Qtype != q.Question[0].Qtype {
		return "response is not for the query: " + full(a)
	}
	want := p29Good(q)
	if act.must == "answer" && act.name != "rcode" && len(a.Answer) < 2 || act.name == "full" && len(a.Answer) != 242 {
		return fmt.Sprintf("%d records", len(a.Answer))
	}
	for i, r := range a.Answer {
		if i < len(want.Answer) && r.String() != want.Answer[i].String() {
			return "response contains " + r.String()
		}
	}
	return ""
}

func p29Run(k p29Kind, part, parts int, depth int) func(*C) {
	return func(c *C) {
		var acts []p29Act
		for _, a := range p29Acts() {
			p29ByName[a.name] = a
			if k.name == "dtls" && a.name == "full" {
				continue // larger than a record can be
			}
			if (a.name == "echo" || a.name == "unanswered") && k.name != "udp" && k.name != "tcp" {
				a.must = "" // authenticated servers are trusted to set the flag
			}
			if a.kinds == "" || strings.Contains(a.kinds, k.kind) {
				acts = append(acts, a)
			}
		}
		var obl *p29Oblivious
		if k.name == "odoh" {
			key, err := odoh.CreateKeyPairFromSeed(hpke.DHKEM_X25519, hpke.KDF_HKDF_SHA256, hpke.AEAD_AESGCM128, make([]byte, 32))
			if err != nil {
				c.ToolError("key: %v", err)
				return
			}
			obl = &p29Oblivious{key: key, cfg: make(chan string, 1)}
			k.serve = func() (string, func()) {
				s := httptest.NewUnstartedServer(obl)
				s.TLS = serverTLS()
				s.EnableHTTP2 = true
				s.StartTLS()
				return s.Listener.Addr().String(), func() { s.CloseClientConnections() }
			}
			k.client = func(addr string, t time.Duration) (rdns.Resolver, func(), error) {
				cl, err := rdns.NewODoHClient("c", "https://"+addr+"/proxy", "https://"+addr+"/dns-query", "", rdns.DoHClientOptions{Method: "POST", TLSConfig: clientTLS(), QueryTimeout: t, IdleTimeout: time.Second})
				return cl, func() {}, err
			}
		}
		addr, stop := k.serve()
		defer stop()
		n := 0
		run := func(seq []p29Act, timeout time.Duration) (bad string) {
			cl, done, err := k.client(addr, timeout)
			if err != nil {
				return "client: " + err.Error()
			}
			defer done()
			fetched, stuck := false, false
			for i, act := range append(append([]p29Act{}, seq...), p29ByName["good"]) {
				if strings.HasPrefix(act.name, "cfg") && fetched {
					continue // the key is known already
				}
				n++
				q := query(fmt.Sprintf("%s.n%d.Test.", act.name, n), dns.TypeA)
				q.Id = uint16(n*7919 + 1)
				if i%2 == 1 {
					q.SetEdns0(1232, true)
				}
				before := full(q)
				if obl != nil {
					select {
					case <-obl.cfg:
					default:
					}
					if strings.HasPrefix(act.name, "cfg") {
						obl.cfg <- act.name
					}
				}
				type result struct {
					a   *dns.Msg
					err error
				}
				got := make(chan result, 1)
				start := time.Now()
				go func() {
					defer func() {
						if r := recover(); r != nil {
							got <- result{nil, fmt.Errorf("panic: %v", r)}
						}
					}()
					a, err := cl.Resolve(q, rdns.ClientInfo{})
					got <- result{a, err}
				}()
				var r result
				select {
				case r = <-got:
				case <-time.After(timeout + 4*time.Second):
					return fmt.Sprintf("query %d (%s) does not return", i+1, act.name)
				}
				took := time.Since(start)
				if r.err != nil && strings.HasPrefix(r.err.Error(), "panic") {
					return fmt.Sprintf("query %d (%s): %v", i+1, act.name, r.err)
				}
				if stuck && r.err != nil {
					continue // until the client gives up on the connection
				}
				stuck = stuck || k.kind == "s" && act.name == "framehang"
				if v := p29Judge(act, q, r.a, r.err, took, timeout); v != "" {
					return fmt.Sprintf("query %d (%s): %s", i+1, act.name, v)
				}
				if full(q) != before {
					return fmt.Sprintf("query %d (%s) was changed to %s", i+1, act.name, full(q))
				}
				fetched = fetched || !strings.HasPrefix(act.name, "cfg")
				if act.after != "" || act.must != "answer" {
					time.Sleep(timeout / 50) // for the client to notice
					if k.kind == "q" && act.after == "close" {
						time.Sleep(timeout / 5)
					}
				}
			}
			return ""
		}
		if part == 0 && k.kind == "s" {
			// A client does not wait for the rest of a message forever.
			c.Case(k.name + ": framehang, 11 s later good")
			c.Step()
			cl, done, err := k.client(addr, time.Second)
			if err != nil {
				c.ToolError("client: %v", err)
				return
			}
			defer done()
			cl.Resolve(query("framehang.x.test.", dns.TypeA), rdns.ClientInfo{})
			time.Sleep(11 * time.Second)
			q := query("good.x.test.", dns.TypeA)
			a, err := cl.Resolve(q, rdns.ClientInfo{})
			if v := p29Judge(p29ByName["good"], q, a, err, 0, time.Second); v != "" {
				c.Violation("%s", v)
			}
		}
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(acts)
		}
		for x := part; x < total; x += parts {
			if c.Full() {
				return
			}
			var seq []p29Act
			var names []string
			for i, y := 0, x; i < depth; i, y = i+1, y/len(acts) {
				seq = append(seq, acts[y%len(acts)])
				names = append(names, acts[y%len(acts)].name)
			}
			c.Case(fmt.Sprintf("%s: %s, good", k.name, strings.Join(names, ", ")))
			c.Step()
			bad := run(seq, 150*time.Millisecond)
			if bad != "" { // not the load of the machine?
				bad = run(seq, 1500*time.Millisecond)
			}
			if bad != "" {
				c.Violation("%s", bad)
			}
			c.State("%s %v", k.name, names)
		}
	}
}

// p29Relay stands before a server; until opened it swallows everything.
func p29Relay(target string, datagram bool) (addr string, open func(), stop func()) {
	var mu sync.Mutex
	ready := false
	isOpen := func() bool { mu.Lock(); defer mu.Unlock(); return ready }
	open = func() { mu.Lock(); ready = true; mu.Unlock() }
	if datagram {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		peers := map[string]*net.UDPConn{}
		go func() {
			b := make([]byte, 65536)
			for {
				n, peer, err := c.ReadFromUDP(b)
				if err != nil {
					return
				}
				if !isOpen() {
					continue
				}
				up := peers[peer.String()]
				if up == nil {
					ra, _ := net.ResolveUDPAddr("udp", target)
					if up, err = net.DialUDP("udp", nil, ra); err != nil {
						continue
					}
					peers[peer.String()] = up
					go func() {
						b := make([]byte, 65536)
						for {
							n, err := up.Read(b)
							if err != nil {
								return
							}
							c.WriteToUDP(b[:n], peer)
						}
					}()
				}
				up.Write(b[:n])
			}
		}()
		return c.LocalAddr().String(), open, func() { c.Close() }
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			if !isOpen() {
				continue // stays open, nothing comes back
			}
			go func() {
				up, err := net.Dial("tcp", target)
				if err != nil {
					c.Close()
					return
				}
				go func() { io.Copy(up, c); up.Close() }()
				io.Copy(c, up)
				c.Close()
			}()
		}
	}()
	return ln.Addr().String(), open, func() { ln.Close() }
}

// p29Mute has several queries meet a server that does not react at all until
// it does.
func p29Mute(k p29Kind, n int) func(*C) {
	return func(c *C) {
		for _, a := range p29Acts() {
			p29ByName[a.name] = a
		}
		addr, stop := k.serve()
		defer stop()
		addr, open, stop2 := p29Relay(addr, k.name == "udp" || k.name == "dtls" || k.name == "doh3" || strings.HasPrefix(k.name, "doq"))
		defer stop2()
		timeout := 700 * time.Millisecond
		cl, done, err := k.client(addr, timeout)
		if err != nil {
			c.ToolError("client: %v", err)
			return
		}
		defer done()
		c.Case(fmt.Sprintf("%s: %d queries to a server that does not react, then does", k.name, n))
		c.Step()
		c.State("%s %d", k.name, n)
		start := time.Now()
		got := make(chan error, n)
		for i := 0; i < n; i++ {
			go func() {
				_, err := cl.Resolve(query(fmt.Sprintf("good.m%d.test.", i), dns.TypeA), rdns.ClientInfo{})
				got <- err
			}()
		}
		for i := 0; i < n; i++ {
			select {
			case err := <-got:
				if err == nil {
					c.Violation("query was answered")
				}
			case <-time.After(timeout + 4*time.Second - time.Since(start)):
				c.Violation("%d of %d queries are still waiting after %v with a timeout of %v", n-i, n, time.Since(start), timeout)
				return
			}
		}
		open()
		for start = time.Now(); ; time.Sleep(100 * time.Millisecond) {
			q := query("good.after.test.", dns.TypeA)
			a, err := cl.Resolve(q, rdns.ClientInfo{})
			v := p29Judge(p29ByName["good"], q, a, err, 0, timeout)
			if v == "" {
				return
			}
			if time.Since(start) > 40*time.Second {
				c.Violation("no answer %v after the server started to react: %s", time.Since(start), v)
				return
			}
		}
	}
}

func init() {
	register(&Check{
		ID:          "P29",
		Level:       "fault_enumeration",
		Rule:        "every sequence of two (thorough: three) server behaviours of the alphabet followed by a good exchange, for every client transport over loopback; a state is a distinct sequence",
		Assumptions: []string{"time limits are judged with a margin of seconds", "a client gets a few milliseconds to notice that a server closed a connection", "records of a message that ends within a record may be passed on"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			for _, k := range p29Kinds() {
				if k.serve != nil {
					for _, n := range []int{1, 4, 12} {
						out = append(out, Scenario{Name: fmt.Sprintf("mute-%s-%d", k.name, n), Weight: 2, Run: p29Mute(k, n), CrashIsViolation: true})
					}
				}
				parts, depth := 4, 2
				if tier == "thorough" && k.name != "dtls" {
					parts, depth = 16, 3
				}
				for i := 0; i < parts; i++ {
					out = append(out, Scenario{Name: fmt.Sprintf("%s-%d", k.name, i), Run: p29Run(k, i, parts, depth), CrashIsViolation: true})
				}
			}
			return out
		},
	})
}

// p19Client checks what clients make of padding in the queries they send.
func p19Client(k p29Kind) func(*C) {
	return func(c *C) {
		for _, a := range p29Acts() {
			p29ByName[a.name] = a
		}
		p29Seen = make(chan []byte, 100)
		addr, stop := k.serve()
		defer stop()
		cl, done, err := k.client(addr, 5*time.Second)
		if err != nil {
			c.ToolError("client: %v", err)
			return
		}
		defer done()
		pad := func(n int) dns.EDNS0 { return &dns.EDNS0_PADDING{Padding: make([]byte, n)} }
		shapes := []struct {
			name string
			make func(q *dns.Msg)
		}{
			{"plain", func(q *dns.Msg) {}},
			{"edns", func(q *dns.Msg) { withOpt(q, false) }},
			{"do", func(q *dns.Msg) { withOpt(q, true) }},
			{"padded 0", func(q *dns.Msg) { withOpt(q, false, pad(0)) }},
			{"padded 7", func(q *dns.Msg) { withOpt(q, false, pad(7)) }},
			{"padded 300", func(q *dns.Msg) { withOpt(q, false, pad(300)) }},
			{"padded twice", func(q *dns.Msg) { withOpt(q, false, pad(3), pad(5)) }},
			{"subnet and padding", func(q *dns.Msg) { withOpt(q, false, subnet("192.0.2.0", 24), pad(9)) }},
			{"custom 12", func(q *dns.Msg) { withOpt(q, false, &dns.EDNS0_LOCAL{Code: 12, Data: []byte{1, 2}}) }},
		}
		encrypted := k.name != "udp" && k.name != "tcp"
		for _, shape := range shapes {
			for n := 1; n <= 130; n++ {
				if c.Full() {
					return
				}
				name := "good." + strings.Repeat("y", min(n, 60)) + "."
				if n > 60 {
					name += strings.Repeat("y", min(n-60, 60)) + "."
				}
				if n > 120 {
					name += strings.Repeat("y", n-120) + "."
				}
				q := query(name, dns.TypeA)
				shape.make(q)
				c.Case(fmt.Sprintf("%s: %s query of %d bytes", k.name, shape.name, q.Len()))
				c.Step()
				var r error
				c.Guard(func() { _, r = cl.Resolve(q, rdns.ClientInfo{}) })
				if r != nil {
					c.Violation("failed: %v", r)
					return
				}
				b := <-p29Seen
				m := new(dns.Msg)
				if err := m.Unpack(b); err != nil {
					c.Violation("sent a malformed query: %v", err)
					return
				}
				padding, options := 0, 0
				o := m.IsEdns0()
				if (o != nil) != (q.IsEdns0() != nil) {
					c.Violation("EDNS0 in the query was added or removed")
				}
				if o != nil {
					for _, e := range o.Option {
						if e.Option() == dns.EDNS0PADDING {
							padding++
						} else {
							options++
						}
					}
				}
				if want := strings.Count(shape.name, "subnet"); options != want {
					c.Violation("%d other options sent, %d expected", options, want)
				}
				switch {
				case !encrypted && padding > 0:
					c.Violation("padding sent unencrypted")
				case encrypted && o == nil && padding > 0:
					c.Violation("padding without EDNS0")
				case encrypted && k.kind != "q" && o != nil && !strings.HasPrefix(shape.name, "custom") && (padding == 0 || len(b)%128 != 0):
					c.Violation("sent %d bytes with %d padding options, a multiple of 128 expected", len(b), padding)
				}
				c.State("%s %d %d", k.name, len(b), padding)
			}
		}
	}
}
