package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// p18: one reply per query, p19: sizes and padding, p20: permitted clients.

const replyTime = 10 * time.Second

// scripted is a resolver for listeners. A query for ping. is always answered.
type scripted struct {
	mu   sync.Mutex
	f    func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)
	seen []*dns.Msg
	ci   []rdns.ClientInfo
}

func (s *scripted) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	if strings.EqualFold(q.Question[0].Name, "ping.") {
		return reply(q, 0, rr("ping. 1 IN A 127.0.0.1")), nil
	}
	s.mu.Lock()
	s.seen = append(s.seen, q.Copy())
	s.ci = append(s.ci, ci)
	f := s.f
	s.mu.Unlock()
	return f(q, ci)
}
func (s *scripted) String() string { return "scripted" }
func (s *scripted) set(f func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.f, s.seen, s.ci = f, nil, nil
}
func (s *scripted) got() ([]*dns.Msg, []rdns.ClientInfo) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.seen, s.ci
}

// ping is a query known to be answered.
func ping(k lkind, addr string, local net.IP) error {
	var err error
	for try := 0; try < 3; try++ {
		var c lconn
		if c, err = k.dial(addr, local); err != nil {
			continue
		}
		q := query("ping.", dns.TypeA)
		q.Id = 99
		var a *dns.Msg
		a, _, err = exchange(c, q, replyTime/3)
		c.close()
		if err == nil && a.Id == 99 && len(a.Answer) == 1 {
			return nil
		}
		if err == nil {
			err = fmt.Errorf("got %s", full(a))
		}
	}
	return err
}

type p18Query struct {
	name string
	q    *dns.Msg
}

func p18Queries() (out []p18Query) {
	add := func(name string, q *dns.Msg) { out = append(out, p18Query{name, q}) }
	add("plain", query("a.b.", dns.TypeA))
	q := query("A.b.", dns.TypeAAAA)
	q.RecursionDesired = false
	q.Id = 0
	add("case", q)
	q = query(".", dns.TypeNS)
	q.CheckingDisabled, q.AuthenticatedData = true, true
	q.Id = 0xffff
	add("root", q)
	l := strings.Repeat("x", 63)
	add("long", query(l+"."+l+"."+l+"."+l[:61]+".", dns.TypeTXT))
	add("escaped", query(`a\.b\000\255\ c.d.`, dns.TypeANY))
	q = query("a.b.", 65280)
	q.Question[0].Qclass = dns.ClassCHAOS
	add("odd-type", q)
	q = query("a.b.", dns.TypeSOA)
	q.Opcode = dns.OpcodeNotify
	q.Authoritative = true
	add("notify", q)
	add("edns", withOpt(query("a.b.", dns.TypeA), false))
	opt := func(size uint16, do bool, o ...dns.EDNS0) *dns.Msg {
		q := query("a.b.", dns.TypeA)
		q.SetEdns0(size, do)
		q.IsEdns0().Option = o
		return q
	}
	add("edns-0", opt(0, true))
	add("edns-65535", opt(65535, true))
	add("edns-options", opt(1232, true, subnet("10.0.0.0", 8), &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"}, &dns.EDNS0_NSID{Code: dns.EDNS0NSID}))
	add("edns-padding", opt(4096, false, &dns.EDNS0_PADDING{Padding: make([]byte, 40)}))
	add("edns-padding-2", opt(512, false, &dns.EDNS0_PADDING{}, &dns.EDNS0_LOCAL{Code: 65001, Data: []byte{1}}, &dns.EDNS0_PADDING{Padding: make([]byte, 3)}))
	add("edns-keepalive", opt(1400, false, &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE}))
	q = opt(1400, false)
	q.IsEdns0().SetVersion(1)
	add("edns-version", q)
	q = opt(1400, false)
	q.Extra = append(q.Extra, rr("x. 1 IN A 1.2.3.4"))
	add("extra", q)
	q = query("a.b.", dns.TypeA)
	q.SetTsig("key.", dns.HmacSHA256, 300, 1000)
	q.Extra[0].(*dns.TSIG).MAC = "aabb"
	q.Extra[0].(*dns.TSIG).MACSize = 2
	add("signed", q)
	q = query("a.b.", dns.TypeA)
	q.Answer = rrs("a.b. 1 IN A 9.9.9.9")
	add("with-answer", q)
	return
}

// many returns n records that compress well.
func many(n int, owner string) (out []dns.RR) {
	for i := 0; i < n; i++ {
		out = append(out, &dns.A{Hdr: dns.RR_Header{Name: owner, Rrtype: dns.TypeA, Class: 1, Ttl: 60}, A: net.IPv4(10, byte(i>>16), byte(i>>8), byte(i))})
	}
	return
}

type p18Outcome struct {
	name string
	// want: reply, servfail or drop
	want string
	f    func(q *dns.Msg) (*dns.Msg, error)
}

func p18Outcomes() (out []p18Outcome) {
	ans := func(name string, f func(q, a *dns.Msg)) {
		out = append(out, p18Outcome{name, "reply", func(q *dns.Msg) (*dns.Msg, error) {
			a := reply(q, 0)
			f(q, a)
			return a, nil
		}})
	}
	ans("empty", func(q, a *dns.Msg) {})
	ans("one", func(q, a *dns.Msg) { a.Answer = rrs("a.b. 60 IN A 1.2.3.4") })
	for rc := 1; rc <= 11; rc++ {
		ans(fmt.Sprintf("rcode-%d", rc), func(q, a *dns.Msg) {
			a.Rcode = rc
			a.Ns = rrs("b. 60 IN SOA ns.b. h.b. 1 2 3 4 5")
		})
	}
	for _, rc := range []int{16, 23, 4095} {
		ans(fmt.Sprintf("rcode-%d", rc), func(q, a *dns.Msg) {
			a.Rcode = rc
			a.SetEdns0(1232, false)
		})
	}
	// The response code needs EDNS0 but the record was taken out on the way.
	out = append(out, p18Outcome{"rcode-16-plain", "any", func(q *dns.Msg) (*dns.Msg, error) {
		a := reply(q, 16)
		return a, nil
	}})
	ans("sections", func(q, a *dns.Msg) {
		a.Answer = rrs("a.b. 60 IN CNAME c.b.", "c.b. 60 IN A 1.2.3.4", `a.b. 1 IN TXT "x" "y"`)
		a.Ns = rrs("b. 60 IN NS ns.b.")
		a.Extra = rrs("ns.b. 60 IN A 1.2.3.5")
	})
	ans("edns", func(q, a *dns.Msg) {
		a.Extra = rrs("ns.b. 60 IN A 1.2.3.5")
		a.SetEdns0(1400, true)
		a.IsEdns0().Option = []dns.EDNS0{subnet("10.0.0.0", 8), &dns.EDNS0_EDE{InfoCode: 1, ExtraText: "t"}, &dns.EDNS0_PADDING{Padding: make([]byte, 100)}, &dns.EDNS0_LOCAL{Code: 65001, Data: []byte{1}}}
		a.Extra = append(a.Extra, rr("ns2.b. 60 IN A 1.2.3.6"))
	})
	ans("signed", func(q, a *dns.Msg) {
		a.Answer = rrs("a.b. 60 IN A 1.2.3.4")
		a.SetTsig("key.", dns.HmacSHA256, 300, 1000)
		a.Extra[0].(*dns.TSIG).MAC = "aabb"
		a.Extra[0].(*dns.TSIG).MACSize = 2
	})
	ans("odd-records", func(q, a *dns.Msg) {
		a.Answer = rrs("a.b. 60 IN TYPE65280 \\# 3 abcdef", "a.b. 60 IN HTTPS 1 . alpn=h2 ipv4hint=1.2.3.4", "a.b. 60 IN NSEC b.b. A RRSIG TYPE65280",
			"a.b. 0 IN CAA 0 issue \"ca.example\"", "a.b. 5 IN NAPTR 1 2 \"a\" \"b\" \"c\" .", "a.b. 5 CH TXT \"v\"")
	})
	ans("large", func(q, a *dns.Msg) { a.Answer = many(200, "a.b.") })
	ans("full", func(q, a *dns.Msg) { a.Answer = many(3900, ".") }) // 62 kB
	ans("compressible", func(q, a *dns.Msg) {
		// Less than 64 kB as received, more when written without compression.
		a.Answer = many(3000, "a.long.name.that.takes.some.space.b.")
	})
	ans("truncated", func(q, a *dns.Msg) { a.Truncated = true })
	ans("flags", func(q, a *dns.Msg) {
		a.Authoritative, a.RecursionAvailable, a.AuthenticatedData, a.CheckingDisabled, a.RecursionDesired = true, true, true, true, true
	})
	out = append(out, p18Outcome{"error", "servfail", func(q *dns.Msg) (*dns.Msg, error) { return nil, errUpstream }})
	out = append(out, p18Outcome{"error-answer", "servfail", func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 0, rr("a.b. 1 IN A 6.6.6.6")), errUpstream }})
	out = append(out, p18Outcome{"drop", "drop", func(q *dns.Msg) (*dns.Msg, error) { return nil, nil }})
	return
}

// records renders a section ignoring EDNS0 and transaction signatures.
func records(s []dns.RR) string {
	var out []string
	for _, r := range s {
		if t := r.Header().Rrtype; t != dns.TypeOPT && t != dns.TypeTSIG {
			out = append(out, r.String())
		}
	}
	return strings.Join(out, "|")
}

// p18Reply judges one reply.
func p18Reply(q, want, a *dns.Msg, what string) string {
	if a.Id != q.Id || !a.Response || a.Opcode != q.Opcode || len(a.Question) != 1 || a.Question[0] != q.Question[0] {
		return fmt.Sprintf("reply does not belong to the query: %s", shortMsg(a, nil))
	}
	switch what {
	case "servfail":
		if a.Rcode != dns.RcodeServerFailure || len(a.Answer)+len(a.Ns) > 0 {
			return fmt.Sprintf("failed query answered with %s", shortMsg(a, nil))
		}
	case "any":
		if a.Rcode != want.Rcode && a.Rcode != dns.RcodeServerFailure {
			return fmt.Sprintf("answered with %s", shortMsg(a, nil))
		}
	case "reply":
		if a.Truncated && !want.Truncated {
			return "" // sizes are judged elsewhere
		}
		wantRR := want.Copy()
		b, err := wantRR.Pack()
		if err == nil {
			wantRR.Unpack(b)
		}
		if a.Rcode != want.Rcode || records(a.Answer) != records(wantRR.Answer) || records(a.Ns) != records(wantRR.Ns) || records(a.Extra) != records(wantRR.Extra) {
			return fmt.Sprintf("reply %s differs from the response %s", shortMsg(a, nil), shortMsg(want, nil))
		}
		if a.MsgHdr != want.MsgHdr {
			return fmt.Sprintf("flags %+v, expected %+v", a.MsgHdr, want.MsgHdr)
		}
	}
	return ""
}

func p18Run(k lkind) func(*C) {
	return func(c *C) {
		s := &scripted{}
		addr, stop, err := startListener(k, "127.0.0.1", rdns.ListenOptions{}, s)
		if err != nil {
			c.ToolError("%s: %v", k.name, err)
			return
		}
		defer stop()
		for _, o := range p18Outcomes() {
			var conn lconn
			for _, qx := range p18Queries() {
				if c.Full() {
					return
				}
				if k.name == "dtls" && qx.name == "edns-65535" {
					continue // more than the client side can take
				}
				c.Case(fmt.Sprintf("%s: query %s, outcome %s", k.name, qx.name, o.name))
				c.Step()
				var want *dns.Msg
				s.set(func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					a, err := o.f(q)
					if a != nil {
						want = a.Copy()
					}
					return a, err
				})
				expect := o.want
				if k.name == "doq" && qx.name == "edns-keepalive" {
					expect = "drop" // forbidden there
				}
				if conn == nil {
					if conn, err = k.dial(addr, nil); err != nil {
						c.Violation("not reachable: %v", err)
						return
					}
				}
				a, raw, err := exchange(conn, qx.q, map[bool]time.Duration{true: 20 * time.Millisecond, false: replyTime}[expect == "drop"])
				switch {
				case expect == "drop":
					if err == nil || !errors.Is(err, errNone) && !errors.Is(err, errNoReply) {
						c.Violation("dropped query was answered: %s %v", shortMsg(a, nil), err)
					}
				case err != nil:
					c.Violation("no reply: %v (%d bytes)", err, len(raw))
				default:
					if msg := p18Reply(qx.q, want, a, expect); msg != "" {
						c.Violation("%s", msg)
					}
					// Nothing follows.
					if !k.http && k.name != "doq" && (qx.name == "plain" || o.name == "one") {
						if b, err := conn.recv(3 * time.Millisecond); err == nil {
							c.Violation("second reply of %d bytes", len(b))
						}
					}
				}
				if seen, _ := s.got(); len(seen) != 1 && !(k.name == "doq" && qx.name == "edns-keepalive") {
					c.Violation("resolved %d times", len(seen))
				}
				if expect == "drop" || err != nil {
					conn.close()
					conn = nil
				}
				c.State("%s %s %s", k.name, o.name, shortMsg(a, err))
			}
			if conn != nil {
				conn.close()
			}
			if err := ping(k, addr, nil); err != nil {
				c.Violation("no longer in service: %v", err)
				return
			}
		}
	}
}

// p18Other: a query in flight is answered whatever happens to the queries of
// another client meanwhile.
func p18Other(k lkind) func(*C) {
	return func(c *C) {
		s := &scripted{}
		addr, stop, err := startListener(k, "127.0.0.1", rdns.ListenOptions{}, s)
		if err != nil {
			c.ToolError("%s: %v", k.name, err)
			return
		}
		defer stop()
		for _, o := range p18Outcomes() {
			for _, garbage := range []bool{false, true} {
				if c.Full() {
					return
				}
				c.Case(fmt.Sprintf("%s: outcome %s of another query, garbage %v", k.name, o.name, garbage))
				c.Step()
				gate, started := make(chan struct{}), make(chan struct{}, 1)
				s.set(func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					if q.Question[0].Name == "slow.b." {
						started <- struct{}{}
						<-gate
						return reply(q, 0, rr("slow.b. 60 IN A 1.1.1.1")), nil
					}
					return o.f(q)
				})
				c1, err := k.dial(addr, nil)
				if err != nil {
					c.Violation("not reachable: %v", err)
					return
				}
				q := query("slow.b.", dns.TypeA)
				q.Id = 5
				b, _ := q.Pack()
				if err := c1.send(b); err != nil {
					c.Violation("not reachable: %v", err)
					return
				}
				select {
				case <-started:
				case <-time.After(replyTime):
					c.Violation("query not resolved")
					return
				}
				c2, err := k.dial(addr, nil)
				if err != nil {
					c.Violation("not reachable: %v", err)
					return
				}
				if garbage {
					c2.send([]byte{1, 2, 3, 4, 5})
					c2.recv(2 * time.Millisecond)
				} else {
					d := replyTime
					if o.want == "drop" {
						d = 20 * time.Millisecond
					}
					q2 := withOpt(query("a.b.", dns.TypeA), false)
					_, _, err := exchange(c2, q2, d)
					if (err != nil) != (o.want == "drop") {
						c.Violation("second client: %v", err)
					}
				}
				c2.close()
				close(gate)
				r, err := c1.recv(replyTime)
				m := new(dns.Msg)
				if err == nil {
					err = m.Unpack(r)
				}
				if err != nil || m.Id != 5 || len(m.Answer) != 1 {
					c.Violation("query of the first client not answered: %v", err)
				}
				c1.close()
				c.State("%s %s %v", k.name, o.name, garbage)
			}
		}
	}
}

// p18Garbage: every prefix and every changed bit of a message.
func p18Garbage(k lkind, step int) func(*C) {
	return func(c *C) {
		s := &scripted{}
		addr, stop, err := startListener(k, "127.0.0.1", rdns.ListenOptions{}, s)
		if err != nil {
			c.ToolError("%s: %v", k.name, err)
			return
		}
		defer stop()
		s.set(func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			return reply(q, 0, rr("a.b. 60 IN A 1.1.1.1")), nil
		})
		base := withOpt(query("a.b.", dns.TypeA), true, subnet("10.0.0.0", 8), &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"})
		base.Extra = append(base.Extra, rr("x.b. 1 IN TXT t"))
		b, err := base.Pack()
		if err != nil {
			c.ToolError("%v", err)
			return
		}
		type msg struct {
			name string
			b    []byte
		}
		var msgs []msg
		for n := 0; n <= len(b); n++ {
			msgs = append(msgs, msg{fmt.Sprintf("first %d bytes", n), b[:n]})
		}
		for bit := 0; bit < 8*len(b); bit++ {
			x := append([]byte(nil), b...)
			x[bit/8] ^= 1 << (7 - bit%8)
			msgs = append(msgs, msg{fmt.Sprintf("bit %d changed", bit), x})
		}
		for i := 0; i+1 < 12; i += 2 { // counts and flags
			for _, v := range [][2]byte{{0, 0}, {0xff, 0xff}, {0, 2}} {
				x := append([]byte(nil), b...)
				x[i], x[i+1] = v[0], v[1]
				msgs = append(msgs, msg{fmt.Sprintf("header field %d set to %x", i/2, v), x})
			}
		}
		msgs = append(msgs, msg{"loop", append(append([]byte(nil), b[:12]...), 0xc0, 12, 0, 1, 0, 1)})
		var conn lconn
		for i, m := range msgs {
			if c.Full() {
				return
			}
			c.Case(fmt.Sprintf("%s: %s", k.name, m.name))
			c.Step()
			if conn == nil || !k.http && !k.datagram && k.name != "doq" {
				if conn != nil {
					conn.close()
				}
				if conn, err = k.dial(addr, nil); err != nil {
					c.Violation("not reachable: %v", err)
					return
				}
			}
			if err := conn.send(m.b); err != nil {
				conn.close()
				conn = nil
				continue
			}
			wait := 2 * time.Millisecond
			if k.http || k.name == "doq" {
				wait = replyTime
			}
			r, err := conn.recv(wait)
			if err == nil && len(r) >= 12 && len(m.b) >= 2 && (r[0] != m.b[0] || r[1] != m.b[1] || r[2]&0x80 == 0) {
				c.Violation("reply with another ID: % x", r[:4])
			}
			if errors.Is(err, errNone) && (k.http || k.name == "doq") {
				c.Violation("request never ends")
			}
			if err != nil {
				conn.close()
				conn = nil
			}
			if i%step == 0 || i == len(msgs)-1 {
				if err := ping(k, addr, nil); err != nil {
					c.Violation("no longer in service: %v", err)
					return
				}
			}
			c.State("%s %v %d", k.name, err, len(r))
		}
		if conn != nil {
			conn.close()
		}
	}
}

// ------------------------------------------------------------ sizes, padding

func p19Run(k lkind) func(*C) {
	return func(c *C) {
		s := &scripted{}
		addr, stop, err := startListener(k, "127.0.0.1", rdns.ListenOptions{}, s)
		if err != nil {
			c.ToolError("%s: %v", k.name, err)
			return
		}
		defer stop()
		conn, err := k.dial(addr, nil)
		if err != nil {
			c.ToolError("%s: %v", k.name, err)
			return
		}
		defer func() { conn.close() }()
		n := 0
		for _, adv := range []int{-1, 0, 511, 512, 513, 700, 1232, 1404, 4096, 16000, 65535} {
			if k.name == "dtls" && adv > 8000 {
				continue // more than the client side can take
			}
			limit := max(adv, 512)
			if adv == -1 {
				limit = 512
			}
			for _, shape := range []string{"plain", "edns", "padded", "padded-twice", "compressible", "sections", "tc"} {
				top := limit
				if limit > 5000 {
					top = 5000 // larger replies are not limited by the client
				}
				var sizes []int
				for d := -24; d <= 24; d++ {
					sizes = append(sizes, top+d)
				}
				sizes = append(sizes, 100, top/2, top*2, top+300)
				for d := -20; d <= 4; d++ { // around the padding block size
					sizes = append(sizes, 468+d, 2*468+d)
				}
				for _, size := range sizes {
					if c.Full() {
						return
					}
					c.Case(fmt.Sprintf("%s: client size %d, response %s of %d bytes", k.name, adv, shape, size))
					c.Step()
					q := query("a.b.", dns.TypeTXT)
					if adv >= 0 {
						q.SetEdns0(uint16(adv), false)
					}
					var sent *dns.Msg
					s.set(func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
						sent = p19Response(q, shape, size).Copy()
						return p19Response(q, shape, size), nil
					})
					if n++; n%100 == 0 { // connections serve a limited number of queries
						conn.close()
						if conn, err = k.dial(addr, nil); err != nil {
							c.Violation("not reachable: %v", err)
							return
						}
					}
					a, raw, err := exchange(conn, q, replyTime)
					if err != nil {
						c.Violation("no reply: %v", err)
						conn.close()
						if conn, err = k.dial(addr, nil); err != nil {
							c.Violation("not reachable: %v", err)
							return
						}
						continue
					}
					for _, msg := range p19Judge(k, q, sent, a, len(raw), adv, limit) {
						c.Violation("%s", msg)
					}
					c.State("%s %d %s %v %d", k.name, adv, shape, a.Truncated, len(raw))
				}
			}
		}
	}
}

// p19Response makes a response of about the given size without padding.
func p19Response(q *dns.Msg, shape string, size int) *dns.Msg {
	a := reply(q, 0)
	txt := func(n int) dns.RR {
		r := &dns.TXT{Hdr: dns.RR_Header{Name: "a.b.", Rrtype: dns.TypeTXT, Class: 1, Ttl: 60}}
		for n > 200 {
			r.Txt = append(r.Txt, strings.Repeat("x", 199))
			n -= 200
		}
		if n > 0 {
			r.Txt = append(r.Txt, strings.Repeat("y", n-1))
		}
		return r
	}
	switch shape {
	case "edns", "padded", "padded-twice":
		a.SetEdns0(1232, false)
		o := a.IsEdns0()
		o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: 1})
	case "compressible":
		a.Answer = many(20, "a.b.")
	case "sections":
		a.Ns = rrs("b. 1 IN NS ns1.b.", "b. 1 IN NS ns2.b.")
		a.Extra = rrs("ns1.b. 1 IN A 1.1.1.1", "ns2.b. 1 IN A 1.1.1.2")
		a.SetEdns0(1232, false)
	case "tc":
		a.Truncated = true
	}
	for a.Len() < size-300 {
		a.Answer = append(a.Answer, txt(100))
	}
	if rest := size - a.Len() - 15; rest > 0 {
		a.Answer = append(a.Answer, txt(rest))
	}
	switch shape {
	case "padded":
		o := a.IsEdns0()
		o.Option = append([]dns.EDNS0{&dns.EDNS0_PADDING{Padding: make([]byte, 77)}}, o.Option...)
	case "padded-twice":
		o := a.IsEdns0()
		o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, 200)}, &dns.EDNS0_PADDING{Padding: make([]byte, 5)})
	}
	return a
}

func p19Judge(k lkind, q, sent, a *dns.Msg, n, adv, limit int) (out []string) {
	bad := func(f string, args ...any) { out = append(out, fmt.Sprintf(f, args...)) }
	complete := records(a.Answer) == records(sent.Answer) && records(a.Ns) == records(sent.Ns) && records(a.Extra) == records(sent.Extra)
	if k.datagram && n > limit {
		bad("reply of %d bytes, client accepts %d", n, limit)
	}
	if !k.datagram && !complete {
		bad("records missing from a stream reply")
	}
	if a.Truncated != (!complete || sent.Truncated) {
		bad("truncated %v, complete %v, truncated upstream %v", a.Truncated, complete, sent.Truncated)
	}
	// Records are only left out if they don't fit.
	if !complete {
		s := sent.Copy()
		if o := s.IsEdns0(); o != nil {
			var keep []dns.EDNS0
			for _, x := range o.Option {
				if x.Option() != dns.EDNS0PADDING {
					keep = append(keep, x)
				}
			}
			o.Option = keep
		}
		room := limit
		if k.padded && adv >= 0 {
			room -= 4 // an empty padding option
			if s.IsEdns0() == nil {
				room -= 11
			}
			room -= 4 // and a second one
		}
		s.Compress = true
		if s.Len() <= room {
			bad("records left out although %d bytes fit in %d", s.Len(), room)
		}
		for i, r := range a.Answer {
			if r.String() != sent.Answer[i].String() {
				bad("answer record %d changed to %s", i, r)
			}
		}
	}
	padding, pads, others := 0, 0, ""
	if o := a.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if p, ok := x.(*dns.EDNS0_PADDING); ok {
				pads++
				padding += len(p.Padding)
				for _, b := range p.Padding {
					if b != 0 {
						bad("padding carries data")
					}
				}
			} else {
				others += x.String()
			}
		}
	}
	wantOthers := ""
	if o := sent.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if x.Option() != dns.EDNS0PADDING {
				wantOthers += x.String()
			}
		}
	}
	if others != wantOthers {
		bad("options %q, expected %q", others, wantOthers)
	}
	switch {
	case !k.secure && !k.padded:
		if pads > 0 {
			bad("padding sent unencrypted")
		}
	case k.padded && adv < 0:
		if pads > 0 && sent.IsEdns0() == nil {
			bad("padding for a client without EDNS0")
		}
	case k.padded:
		// Block size, or as much as the client accepts.
		if pads == 0 || n%468 != 0 && n != adv && !(padding == 0 && n >= min(adv, limit)-8) && !a.Truncated {
			// Compression by truncation makes the reply shorter.
			if !(k.datagram && padding == 0) {
				bad("reply of %d bytes with %d padding options of %d bytes", n, pads, padding)
			}
		}
		if n > max(adv, n-padding) {
			bad("padding of %d makes the reply %d bytes", padding, n)
		}
	}
	return
}

// ------------------------------------------------------------ permitted clients

func p20Run(k lkind) func(*C) {
	return func(c *C) {
		type host struct {
			listen  string
			clients []string
		}
		hosts := []host{
			{"127.0.0.1", []string{"127.0.0.1", "127.0.0.2", "127.0.1.1", "127.1.0.1", "127.255.255.254"}},
			{"::1", []string{"::1"}},
			{"::", []string{"127.0.0.1", "127.0.0.2", "127.1.0.1", "::1"}},
		}
		nets := []string{"", "127.0.0.1/32", "127.0.0.0/24", "127.0.0.0/8", "::1/128", "::/0", "0.0.0.0/0", "10.0.0.0/8", "10.0.0.0/8,127.0.0.2/32", "::ffff:127.0.0.0/120", "127.0.0.0/31,127.1.0.0/16", "fe80::/10"}
		for _, h := range hosts {
			if h.listen != "127.0.0.1" && strings.HasSuffix(k.name, "4") {
				continue
			}
			for _, ns := range nets {
				var allowed []*net.IPNet
				for _, n := range strings.Split(ns, ",") {
					if n != "" {
						_, x, err := net.ParseCIDR(n)
						if err != nil {
							c.ToolError("%v", err)
							return
						}
						allowed = append(allowed, x)
					}
				}
				s := &scripted{}
				s.set(func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					return reply(q, 0, rr("a.b. 60 IN A 1.1.1.1")), nil
				})
				addr, stop, err := startListener(k, h.listen, rdns.ListenOptions{AllowedNet: allowed}, s)
				if err != nil {
					c.ToolError("%s %s: %v", k.name, h.listen, err)
					return
				}
				for _, cl := range h.clients {
					if c.Full() {
						break
					}
					c.Case(fmt.Sprintf("%s on %s: client %s, allowed %q", k.name, h.listen, cl, ns))
					c.Step()
					ip := net.ParseIP(cl)
					want := len(allowed) == 0
					for _, n := range strings.Split(ns, ",") {
						want = want || inNet(n, ip)
					}
					p20One(c, k, addr, ip, s, want, nil, ip)
				}
				stop()
			}
		}
	}
}

// inNet is an independent membership test.
func inNet(n string, ip net.IP) bool {
	a, b, ok := strings.Cut(n, "/")
	if !ok {
		return false
	}
	base := net.ParseIP(a)
	bits := 0
	fmt.Sscan(b, &bits)
	x, y := ip.To16(), base.To16()
	if v4 := ip.To4(); v4 != nil && base.To4() != nil && !strings.Contains(a, ":") {
		x, y = v4, base.To4()
	} else if (ip.To4() != nil) != (base.To4() != nil) {
		return false
	}
	for i := 0; i < bits; i++ {
		if (x[i/8]^y[i/8])>>(7-i%8)&1 != 0 {
			return false
		}
	}
	return true
}

func p20One(c *C, k lkind, addr string, local net.IP, s *scripted, want bool, header []string, id net.IP) {
	f := s.f
	s.set(f)
	conn, err := k.dial(addr, local)
	if err != nil {
		if want {
			c.Violation("not reachable: %v", err)
		}
		return
	}
	defer conn.close()
	if h, ok := conn.(*httpConn); ok && header != nil {
		h.header["X-Forwarded-For"] = header
	}
	d := replyTime
	if !want && !k.http && k.name != "udp" && k.name != "tcp" {
		d = 30 * time.Millisecond
	}
	a, _, err := exchange(conn, query("a.b.", dns.TypeA), d)
	seen, cis := s.got()
	if want {
		if err != nil || a.Rcode != 0 || len(a.Answer) != 1 || len(seen) != 1 {
			c.Violation("permitted client not served: %s", shortMsg(a, err))
			return
		}
		if k.name == "odoh" {
			return // clients are behind proxies
		}
		if !cis[0].SourceIP.Equal(id) {
			c.Violation("client %s taken for %s", id, cis[0].SourceIP)
		}
	} else {
		if len(seen) > 0 || err == nil && (a.Rcode == 0 || len(a.Answer) > 0) {
			c.Violation("client that is not permitted was served: %s", shortMsg(a, err))
		}
	}
	c.State("%s %v %v %v", k.name, want, id, local)
}

// p20Proxy: who is believed when a forwarding header is present.
func p20Proxy(k lkind) func(*C) {
	return func(c *C) {
		headers := [][]string{nil, {""}, {"10.1.1.1"}, {"10.9.9.9, 10.1.1.1"}, {"10.1.1.1,  2001:db8::1 "}, {"10.9.9.9", "10.1.1.1"}, {"10.1.1.1", "10.2.2.2, 10.9.9.9"}, {"garbage"}, {"10.1.1.1, garbage"}, {"10.1.1.1,"}, {"10.1.1.1:53"}, {"127.0.0.9"}, {"::1"}, {"::ffff:10.1.1.1"}, {"10.1.1.1, 127.0.0.1"}, {strings.Repeat("10.9.9.9, ", 300) + "10.1.1.1"}}
		for _, proxy := range []string{"", "127.0.0.2/32", "127.0.0.0/24", "10.0.0.0/8", "0.0.0.0/0"} {
			for _, ns := range []string{"", "10.1.0.0/16", "127.0.0.0/8", "2001:db8::/32"} {
				var pn *net.IPNet
				if proxy != "" {
					_, pn, _ = net.ParseCIDR(proxy)
				}
				var allowed []*net.IPNet
				if ns != "" {
					_, x, _ := net.ParseCIDR(ns)
					allowed = append(allowed, x)
				}
				s := &scripted{}
				s.set(func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					return reply(q, 0, rr("a.b. 60 IN A 1.1.1.1")), nil
				})
				k2 := k
				k2.make = func(addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
					o := rdns.DoHListenerOptions{ListenOptions: opt, HTTPProxyNet: pn, NoTLS: k.name == "doh-notls", TLSConfig: serverTLS()}
					if k.name == "doh3" {
						o.Transport = "quic"
					}
					return rdns.NewDoHListener("l", addr, o, r)
				}
				addr, stop, err := startListener(k2, "127.0.0.1", rdns.ListenOptions{AllowedNet: allowed}, s)
				if err != nil {
					c.ToolError("%v", err)
					return
				}
				for _, peer := range []string{"127.0.0.1", "127.0.0.2", "127.0.1.1"} {
					for _, h := range headers {
						if c.Full() {
							break
						}
						c.Case(fmt.Sprintf("%s: proxy %q, allowed %q, peer %s, header %.60q", k.name, proxy, ns, peer, h))
						c.Step()
						ip := net.ParseIP(peer)
						id := ip
						if len(h) > 0 && inNet(proxy, ip) {
							parts := strings.Split(h[len(h)-1], ",")
							last := net.ParseIP(strings.Trim(parts[len(parts)-1], " "))
							if last != nil && !inNet("127.0.0.0/8", last) && !last.Equal(net.IPv6loopback) {
								id = last
							}
						}
						p20One(c, k2, addr, ip, s, ns == "" || inNet(ns, id), h, id)
					}
				}
				stop()
			}
		}
	}
}

func init() {
	register(&Check{
		ID:          "P18",
		Level:       "model_checking",
		Rule:        "every listener type with every query and every resolution outcome of the alphabets over real sockets, every outcome while another client's query is in flight, and every prefix and every single-bit change of a message; the server must still answer afterwards; a state is a distinct reply per listener and outcome",
		Assumptions: []string{"queries have one question and opcode QUERY or NOTIFY", "the transport delivers (loopback)", "the client-side protocol libraries are correct", "a QUIC query with a keepalive option is dropped as the standard demands", "DTLS clients advertise no more than their library can receive (8 kB)"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			step := 40
			if tier == "thorough" {
				step = 1
			}
			for _, k := range listenerKinds() {
				out = append(out, Scenario{Name: "reply-" + k.name, Run: p18Run(k), CrashIsViolation: true})
				out = append(out, Scenario{Name: "other-" + k.name, Run: p18Other(k), CrashIsViolation: true})
				out = append(out, Scenario{Name: "garbage-" + k.name, Run: p18Garbage(k, step), CrashIsViolation: true})
			}
			return out
		},
	})
	register(&Check{
		ID:          "P19",
		Level:       "model_checking",
		Rule:        "every listener type with every advertised size of the alphabet and every response size within 24 bytes of each limit and 20 bytes of each padding block, for every response shape; and every client type with every query length over a padding block and every shape of options; judged on the bytes received; a state is a distinct reply size per listener",
		Assumptions: []string{"responses carry no transaction signature"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			for _, k := range listenerKinds() {
				out = append(out, Scenario{Name: "size-" + k.name, Run: p19Run(k), CrashIsViolation: true})
			}
			for _, k := range p29Kinds() {
				if k.serve != nil {
					out = append(out, Scenario{Name: "query-" + k.name, Run: p19Client(k), CrashIsViolation: true})
				}
			}
			return out
		},
	})
	register(&Check{
		ID:          "P20",
		Level:       "model_checking",
		Rule:        "every listener type with every set of allowed networks and every loopback client address, and every combination of proxy network, peer and forwarding header; observed at the resolver behind the listener; a state is a distinct decision",
		Assumptions: []string{"clients connect from loopback addresses", "a forwarding header naming a loopback address is ignored as documented in the code"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			for _, k := range listenerKinds() {
				out = append(out, Scenario{Name: "allowed-" + k.name, Run: p20Run(k), CrashIsViolation: true})
				switch k.name {
				case "doh-post", "doh-get", "doh-notls", "doh3":
					out = append(out, Scenario{Name: "proxy-" + k.name, Run: p20Proxy(k), CrashIsViolation: true})
				}
			}
			return out
		},
	})
}
