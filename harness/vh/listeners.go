package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sync"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// Listeners of every kind on loopback addresses and raw clients for them.

var certOnce = sync.OnceValue(func() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0),
		DNSNames: []string{"test", "localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback},
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, IsCA: true, BasicConstraintsValid: true,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
})

func serverTLS() *tls.Config {
	return &tls.Config{Certificates: []tls.Certificate{certOnce()}}
}
func clientTLS(protos ...string) *tls.Config {
	return &tls.Config{InsecureSkipVerify: true, ServerName: "test", NextProtos: protos}
}

var (
	errNone    = errors.New("no reply in time")
	errNoReply = errors.New("closed without reply")
)

// lconn is a raw client: it sends messages and returns what comes back.
type lconn interface {
	send(b []byte) error
	// recv returns the next reply; errNoReply if the server said there will be
	// none.
	recv(d time.Duration) ([]byte, error)
	close()
}

type lkind struct {
	name     string
	datagram bool // replies limited by the size the client advertised
	secure   bool
	padded   bool // replies are padded
	http     bool
	fresh    bool // one exchange per connection
	make     func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error)
	dial     func(addr string, local net.IP) (lconn, error)
}

var listenerSeq int

// startListener runs a listener on a free port of the address until stop is
// called.
func startListener(k lkind, host string, opt rdns.ListenOptions, r rdns.Resolver) (addr string, stop func(), err error) {
	for try := 0; try < 20; try++ {
		p, e := net.ListenPacket("udp", net.JoinHostPort(host, "0"))
		if e != nil {
			return "", nil, e
		}
		addr = p.LocalAddr().String()
		if host == "::" { // reached over IPv4 and IPv6
			_, port, _ := net.SplitHostPort(addr)
			addr = "[::]:" + port
		}
		p.Close()
		l, e := k.make(addr, opt, r)
		if e != nil {
			return "", nil, e
		}
		done := make(chan error, 1)
		go func() { done <- l.Start() }()
		// Up once a connection is accepted.
		for i := 0; i < 500; i++ {
			select {
			case err = <-done:
				err = fmt.Errorf("listener ended: %v", err)
				i = 500
				continue
			default:
			}
			if probe(k, addr) {
				return addr, func() {
					for {
						l.Stop()
						select {
						case <-done:
							return
						case <-time.After(20 * time.Millisecond):
						}
					}
				}, nil
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	if err == nil {
		err = errors.New("listener does not start")
	}
	return "", nil, err
}

// probe reports if something is bound to the address.
func probe(k lkind, addr string) bool {
	switch k.name {
	case "udp", "udp4", "udp6", "doq", "dtls", "doh3":
		p, err := net.ListenPacket("udp", addr)
		if err == nil {
			p.Close()
			return false
		}
		return true
	}
	c, err := net.DialTimeout("tcp", clientAddr(addr, nil), time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// clientAddr is the address to connect to.
func clientAddr(addr string, local net.IP) string {
	host, port, _ := net.SplitHostPort(addr)
	if host == "::" {
		host = "127.0.0.1"
		if local != nil && local.To4() == nil {
			host = "::1"
		}
	}
	return net.JoinHostPort(host, port)
}

func laddr(network string, ip net.IP) net.Addr {
	if ip == nil {
		return nil
	}
	if network == "udp" {
		return &net.UDPAddr{IP: ip}
	}
	return &net.TCPAddr{IP: ip}
}

// datagrams

type udpConn struct{ net.Conn }

func (c udpConn) send(b []byte) error { _, err := c.Write(b); return err }
func (c udpConn) recv(d time.Duration) ([]byte, error) {
	b := make([]byte, 70000)
	c.SetReadDeadline(time.Now().Add(d))
	n, err := c.Read(b)
	if err != nil {
		return nil, errNone
	}
	return b[:n], nil
}
func (c udpConn) close() { c.Close() }

// streams with a length prefix

type framedConn struct{ net.Conn }

func frame(b []byte) []byte {
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...)
}
func (c framedConn) send(b []byte) error { _, err := c.Write(frame(b)); return err }
func (c framedConn) recv(d time.Duration) ([]byte, error) {
	c.SetReadDeadline(time.Now().Add(d))
	var l [2]byte
	if _, err := io.ReadFull(c, l[:]); err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return nil, errNone
		}
		return nil, errNoReply
	}
	b := make([]byte, binary.BigEndian.Uint16(l[:]))
	if _, err := io.ReadFull(c, b); err != nil {
		return nil, fmt.Errorf("reply cut: %w", err)
	}
	return b, nil
}
func (c framedConn) close() { c.Close() }

// dtlsFramed reads whole records.
type dtlsFramed struct{ *dtls.Conn }

func (c dtlsFramed) send(b []byte) error { _, err := c.Write(frame(b)); return err }
func (c dtlsFramed) recv(d time.Duration) ([]byte, error) {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 70000)
	n, err := c.Read(b)
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return nil, errNone
		}
		return nil, errNoReply
	}
	if n < 2 || int(binary.BigEndian.Uint16(b)) != n-2 {
		return nil, fmt.Errorf("reply cut: %d bytes", n)
	}
	return b[2:n], nil
}
func (c dtlsFramed) close() { c.Close() }

// HTTP

type httpReply struct {
	b   []byte
	err error
}

type httpConn struct {
	url    string
	get    bool
	client *http.Client
	header http.Header
	got    chan httpReply
	done   func()
	wrap   func([]byte) ([]byte, func([]byte) ([]byte, error), error)
	ctype  string
	status int
}

func (c *httpConn) send(b []byte) error {
	open := func(b []byte) ([]byte, error) { return b, nil }
	if c.wrap != nil {
		var err error
		if b, open, err = c.wrap(b); err != nil {
			return err
		}
	}
	var req *http.Request
	var err error
	if c.get {
		req, err = http.NewRequest("GET", c.url+"?dns="+base64.RawURLEncoding.EncodeToString(b), nil)
	} else {
		req, err = http.NewRequest("POST", c.url, bytes.NewReader(b))
	}
	if err != nil {
		return err
	}
	for k, v := range c.header {
		req.Header[k] = v
	}
	req.Header.Set("Content-Type", c.ctype)
	go func() {
		resp, err := c.client.Do(req)
		if err != nil {
			c.got <- httpReply{nil, errNoReply}
			return
		}
		defer resp.Body.Close()
		c.status = resp.StatusCode
		b, err := io.ReadAll(resp.Body)
		switch {
		case err != nil:
			c.got <- httpReply{nil, fmt.Errorf("reply cut: %w", err)}
		case resp.StatusCode != 200:
			c.got <- httpReply{nil, errNoReply}
		case resp.Header.Get("Content-Type") != c.ctype:
			c.got <- httpReply{nil, fmt.Errorf("content type %q", resp.Header.Get("Content-Type"))}
		default:
			b, err = open(b)
			c.got <- httpReply{b, err}
		}
	}()
	return nil
}
func (c *httpConn) recv(d time.Duration) ([]byte, error) {
	select {
	case r := <-c.got:
		return r.b, r.err
	case <-time.After(d):
		return nil, errNone
	}
}
func (c *httpConn) close() { c.done() }

func newHTTPConn(rt http.RoundTripper, url string, get bool, done func()) *httpConn {
	return &httpConn{url: url, get: get, client: &http.Client{Transport: rt}, header: http.Header{}, got: make(chan httpReply, 16), done: done, ctype: "application/dns-message"}
}

func dialHTTP(scheme string, get, h2 bool) func(addr string, local net.IP) (lconn, error) {
	return func(addr string, local net.IP) (lconn, error) {
		d := &net.Dialer{LocalAddr: laddr("tcp", local)}
		tr := &http.Transport{TLSClientConfig: clientTLS(), DialContext: d.DialContext, ForceAttemptHTTP2: h2, DisableCompression: true}
		return newHTTPConn(tr, scheme+"://"+clientAddr(addr, local)+"/dns-query", get, tr.CloseIdleConnections), nil
	}
}

func dialHTTP3(addr string, local net.IP) (lconn, error) {
	tr := &http3.Transport{TLSClientConfig: clientTLS()}
	if local != nil {
		tr.Dial = func(ctx context.Context, a string, t *tls.Config, q *quic.Config) (*quic.Conn, error) {
			u, err := net.ListenUDP("udp", &net.UDPAddr{IP: local})
			if err != nil {
				return nil, err
			}
			ra, err := net.ResolveUDPAddr("udp", a)
			if err != nil {
				return nil, err
			}
			return quic.DialEarly(ctx, u, ra, t, q)
		}
	}
	return newHTTPConn(tr, "https://"+clientAddr(addr, local)+"/dns-query", false, func() { tr.Close() }), nil
}

// dialODoH sends oblivious queries.
func dialODoH(addr string, local net.IP) (lconn, error) {
	c, _ := dialHTTP("https", false, false)(addr, local)
	h := c.(*httpConn)
	h.ctype = rdns.ODOH_CONTENT_TYPE
	h.wrap = func(b []byte) ([]byte, func([]byte) ([]byte, error), error) {
		resp, err := h.client.Get("https://" + clientAddr(addr, local) + rdns.ODOH_CONFIG_PATH)
		if err != nil {
			return nil, nil, err
		}
		defer resp.Body.Close()
		cb, err := io.ReadAll(resp.Body)
		if err != nil {
			return nil, nil, err
		}
		cfg, err := odoh.UnmarshalObliviousDoHConfigs(cb)
		if err != nil {
			return nil, nil, err
		}
		m, ctx, err := cfg.Configs[0].Contents.EncryptQuery(odoh.CreateObliviousDNSQuery(b, 0))
		if err != nil {
			return nil, nil, err
		}
		return m.Marshal(), func(b []byte) ([]byte, error) {
			m, err := odoh.UnmarshalDNSMessage(b)
			if err != nil {
				return nil, err
			}
			return ctx.OpenAnswer(m)
		}, nil
	}
	return h, nil
}

// QUIC: one stream per query

type doqConn struct {
	c   *quic.Conn
	u   *net.UDPConn
	got chan httpReply
}

func (c *doqConn) send(b []byte) error {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	s, err := c.c.OpenStreamSync(ctx)
	if err != nil {
		return err
	}
	if _, err := s.Write(frame(b)); err != nil {
		return err
	}
	s.Close()
	go func() {
		r, err := io.ReadAll(s)
		switch {
		case len(r) == 0:
			c.got <- httpReply{nil, errNoReply}
		case err != nil || len(r) < 2 || len(r)-2 != int(binary.BigEndian.Uint16(r)):
			c.got <- httpReply{nil, fmt.Errorf("reply cut: %d bytes, %v", len(r), err)}
		default:
			c.got <- httpReply{r[2:], nil}
		}
	}()
	return nil
}
func (c *doqConn) recv(d time.Duration) ([]byte, error) {
	select {
	case r := <-c.got:
		return r.b, r.err
	case <-time.After(d):
		return nil, errNone
	}
}
func (c *doqConn) close() {
	c.c.CloseWithError(0, "")
	c.u.Close()
}

func dialDoQ(addr string, local net.IP) (lconn, error) {
	u, err := net.ListenUDP("udp", &net.UDPAddr{IP: local})
	if err != nil {
		return nil, err
	}
	ra, err := net.ResolveUDPAddr("udp", clientAddr(addr, local))
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	c, err := quic.Dial(ctx, u, ra, clientTLS("doq"), &quic.Config{MaxIdleTimeout: time.Minute})
	if err != nil {
		u.Close()
		return nil, err
	}
	return &doqConn{c, u, make(chan httpReply, 16)}, nil
}

func listenerID() string {
	listenerSeq++
	return fmt.Sprintf("l%d", listenerSeq)
}

func listenerKinds() []lkind {
	plain := func(network string) func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
		return func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
			return rdns.NewDNSListener("l", addr, network, opt, r), nil
		}
	}
	dialNet := func(network string) func(addr string, local net.IP) (lconn, error) {
		return func(addr string, local net.IP) (lconn, error) {
			d := net.Dialer{LocalAddr: laddr(network, local), Timeout: 5 * time.Second}
			c, err := d.Dial(network, clientAddr(addr, local))
			if err != nil {
				return nil, err
			}
			if network == "udp" {
				return udpConn{c}, nil
			}
			return framedConn{c}, nil
		}
	}
	doh := func(transport string, noTLS bool) func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
		return func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
			return rdns.NewDoHListener("l", addr, rdns.DoHListenerOptions{ListenOptions: opt, TLSConfig: serverTLS(), Transport: transport, NoTLS: noTLS}, r)
		}
	}
	dot := func(network string) func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
		return func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
			return rdns.NewDoTListener("l", addr, network, rdns.DoTListenerOptions{ListenOptions: opt, TLSConfig: serverTLS()}, r), nil
		}
	}
	return []lkind{
		{name: "udp", datagram: true, make: plain("udp"), dial: dialNet("udp")},
		{name: "udp4", datagram: true, make: plain("udp4"), dial: dialNet("udp")},
		{name: "tcp", make: plain("tcp"), dial: dialNet("tcp")},
		{name: "tcp4", make: plain("tcp4"), dial: dialNet("tcp")},
		{name: "dot", secure: true, padded: true, make: dot("tcp"), dial: func(addr string, local net.IP) (lconn, error) {
			d := &net.Dialer{LocalAddr: laddr("tcp", local), Timeout: 5 * time.Second}
			c, err := tls.DialWithDialer(d, "tcp", clientAddr(addr, local), clientTLS())
			if err != nil {
				return nil, err
			}
			return framedConn{c}, nil
		}},
		{name: "dtls", datagram: true, secure: true, padded: true, make: func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
			return rdns.NewDTLSListener("l", addr, rdns.DTLSListenerOptions{ListenOptions: opt, DTLSConfig: &dtls.Config{Certificates: []tls.Certificate{certOnce()}}}, r), nil
		}, dial: func(addr string, local net.IP) (lconn, error) {
			ra, err := net.ResolveUDPAddr("udp", clientAddr(addr, local))
			if err != nil {
				return nil, err
			}
			cfg := &dtls.Config{InsecureSkipVerify: true, ServerName: "test"}
			var c *dtls.Conn
			if local == nil {
				c, err = dtls.Dial("udp", ra, cfg)
			} else {
				u, e := net.ListenUDP("udp", &net.UDPAddr{IP: local})
				if e != nil {
					return nil, e
				}
				c, err = dtls.Client(u, ra, cfg)
			}
			if err != nil {
				return nil, err
			}
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			defer cancel()
			if err := c.HandshakeContext(ctx); err != nil {
				return nil, err
			}
			return dtlsFramed{c}, nil
		}},
		{name: "doh-post", secure: true, padded: true, http: true, make: doh("tcp", false), dial: dialHTTP("https", false, true)},
		{name: "doh-get", secure: true, padded: true, http: true, make: doh("", false), dial: dialHTTP("https", true, false)},
		{name: "doh-notls", padded: true, http: true, make: doh("", true), dial: dialHTTP("http", false, false)},
		{name: "doh3", secure: true, padded: true, http: true, make: doh("quic", false), dial: dialHTTP3},
		{name: "doq", secure: true, make: func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
			return rdns.NewQUICListener("l", addr, rdns.DoQListenerOptions{ListenOptions: opt, TLSConfig: serverTLS()}, r), nil
		}, dial: dialDoQ},
		{name: "odoh", secure: true, http: true, make: func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
			return rdns.NewODoHListener("l", addr, rdns.ODoHListenerOptions{ListenOptions: opt, TLSConfig: serverTLS(), OdohMode: "dual"}, r)
		}, dial: dialODoH},
		{name: "odoh-doh", secure: true, padded: true, http: true, make: func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
			return rdns.NewODoHListener("l", addr, rdns.ODoHListenerOptions{ListenOptions: opt, TLSConfig: serverTLS(), AllowDoH: true}, r)
		}, dial: dialHTTP("https", false, true)},
	}
}

// exchange sends a query and returns the reply.
func exchange(c lconn, q *dns.Msg, d time.Duration) (*dns.Msg, []byte, error) {
	b, err := q.Pack()
	if err != nil {
		return nil, nil, err
	}
	if err := c.send(b); err != nil {
		return nil, nil, err
	}
	r, err := c.recv(d)
	if err != nil {
		return nil, nil, err
	}
	m := new(dns.Msg)
	if err := m.Unpack(r); err != nil {
		return nil, r, fmt.Errorf("reply cannot be read: %w", err)
	}
	return m, r, nil
}
