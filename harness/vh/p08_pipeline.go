package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p08: shared upstream connections.

// vconn is one end of a connection inside an execution.
type vconn struct {
	in, out  chan []byte
	gone     chan struct{} // closed by the server
	closed   chan struct{} // closed by the client
	isClosed bool
	isGone   bool
	deadline time.Time
	rest     []byte
	wfail    bool
	wlate    bool
	errClose error
	brokenAt time.Duration // when the server broke the connection
	broken   bool          // the server did something a connection does not survive
}

func newVconn() *vconn {
	return &vconn{in: make(chan []byte, 20), out: make(chan []byte, 20), gone: make(chan struct{}), closed: make(chan struct{})}
}

func (c *vconn) Read(b []byte) (int, error) {
	if len(c.rest) == 0 {
		var after *vsched.RecvCase[time.Time]
		if c.deadline.IsZero() {
			after = vsched.CaseRecv((<-chan time.Time)(make(chan time.Time)))
		} else {
			after = vsched.CaseRecv(vsched.After(c.deadline.Sub(vsched.Now())))
		}
		data := vsched.CaseRecv(c.in)
		// What was sent before the close is still read.
		switch vsched.Select(true, data) {
		case 0:
			c.rest = data.V
		default:
			switch vsched.Select(false, data, vsched.CaseRecv(c.closed), vsched.CaseRecv(c.gone), after) {
			case 0:
				c.rest = data.V
			case 1:
				return 0, net.ErrClosed
			case 2:
				if vsched.Select(true, data) == 0 {
					c.rest = data.V
					break
				}
				return 0, c.errClose
			case 3:
				return 0, os.ErrDeadlineExceeded
			}
		}
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *vconn) Write(b []byte) (int, error) {
	vsched.Point()
	if c.isClosed {
		return 0, net.ErrClosed
	}
	if c.isGone || c.wfail {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}
	}
	vsched.Send(c.out)(append([]byte(nil), b...))
	if c.wlate { // fails, although everything has arrived
		vsched.Point()
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("connection reset by peer")}
	}
	return len(b), nil
}

func (c *vconn) Close() error {
	vsched.Point()
	if c.isClosed {
		return net.ErrClosed
	}
	c.isClosed = true
	vsched.Close(c.closed)
	return nil
}

func (c *vconn) hangup(err error) {
	if !c.isGone {
		c.isGone = true
		c.errClose = err
		vsched.Close(c.gone)
	}
}

func (c *vconn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: 1} }
func (c *vconn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: 53} }
func (c *vconn) SetDeadline(t time.Time) error      { c.deadline = t; return nil }
func (c *vconn) SetReadDeadline(t time.Time) error  { c.deadline = t; return nil }
func (c *vconn) SetWriteDeadline(t time.Time) error { return nil }

// vpacket is a datagram connection.
type vpacket struct{ *vconn }

func (c vpacket) Read(b []byte) (int, error) {
	n, err := c.vconn.Read(b)
	c.rest = nil
	return n, err
}
func (c vpacket) ReadFrom(b []byte) (int, net.Addr, error) {
	n, err := c.Read(b)
	return n, c.RemoteAddr(), err
}
func (c vpacket) WriteTo(b []byte, a net.Addr) (int, error) { return c.Write(b) }

func framed(udp bool, b []byte) []byte {
	if udp {
		return b
	}
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...)
}

// What the server does with a query. Everything but "answer" and "late" may
// leave the query without an answer; "late" answers after the next query or
// after a while.
var p08Acts = []string{"answer", "late", "silent", "twice", "wrong-id", "other-question", "no-question", "garbage", "short", "close", "reset", "slow"}

type p08Server struct {
	e      *vsched.Exec
	udp    bool
	acts   []string // alphabet; nil: always answer
	dials  []string
	conns  []*vconn
	seen   int
	spoilt bool // something other than answering happened
	sent   map[string]*p08Sent
}

// p08Sent is what became of a query that reached the server.
type p08Sent struct {
	c        *vconn
	answered bool
	at       time.Duration // of the answer
}

var errRefused = &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}

func (s *p08Server) Dial(string) (*dns.Conn, error) {
	vsched.Point()
	act := "ok"
	if len(s.dials) > 0 {
		act = s.dials[s.e.Choose(len(s.dials), "dial")]
	}
	c := newVconn()
	switch act {
	case "refuse":
		s.spoilt = true
		return nil, errRefused
	case "hang":
		s.spoilt = true
		vsched.Sleep(5 * time.Second)
		return nil, errRefused
	case "slow":
		vsched.Sleep(time.Second)
	case "wfail":
		s.spoilt = true
		c.wfail = true
	case "wlate":
		s.spoilt = true
		c.wlate, c.broken = true, true
	}
	s.conns = append(s.conns, c)
	s.e.Go(fmt.Sprintf("server%d", len(s.conns)), func() { s.serve(c) })
	conn := &dns.Conn{Conn: c}
	if s.udp {
		conn.Conn = vpacket{c}
	}
	return conn, nil
}

func p08Answer(q *dns.Msg) *dns.Msg {
	return reply(q, 0, rr(fmt.Sprintf("%s 60 IN TXT %q", q.Question[0].Name, "for "+q.Question[0].Name)))
}

func (s *p08Server) serve(c *vconn) {
	var held [][]byte
	put := func(b []byte) {
		if !c.isGone {
			vsched.Send(c.in)(framed(s.udp, b))
		}
	}
	// good sends the proper answer.
	good := func(q *dns.Msg, b []byte) {
		put(b)
		if r := s.sent[q.Question[0].Name]; r != nil && !r.answered {
			r.answered, r.at = true, s.e.Elapsed()
		}
	}
	var heldFor []*dns.Msg
	for {
		data, closed := vsched.CaseRecv(c.out), vsched.CaseRecv(c.closed)
		gone := vsched.CaseRecv(c.gone)
		timer := vsched.CaseRecv((<-chan time.Time)(make(chan time.Time)))
		if len(held) > 0 {
			timer = vsched.CaseRecv(vsched.After(500 * time.Millisecond))
		}
		var q *dns.Msg
		switch vsched.Select(false, data, closed, gone, timer) {
		case 0:
			b := data.V
			if !s.udp {
				if len(b) < 2 || int(binary.BigEndian.Uint16(b)) != len(b)-2 {
					s.e.Fail("query not framed: %x", b)
				}
				b = b[2:]
			}
			q = new(dns.Msg)
			if err := q.Unpack(b); err != nil || len(q.Question) != 1 {
				s.e.Fail("bad query sent upstream: %v", err)
			}
		case 1, 2:
			return
		}
		late, lateFor := held, heldFor
		held, heldFor = nil, nil
		if q != nil {
			s.seen++
			act := "answer"
			if len(s.acts) > 0 {
				act = s.acts[s.e.Choose(len(s.acts), "server")]
			}
			if act != "answer" && act != "late" {
				s.spoilt = true
			}
			s.sent[q.Question[0].Name] = &p08Sent{c: c}
			pack := func(m *dns.Msg) []byte { b, _ := m.Pack(); return b }
			a := p08Answer(q)
			switch act {
			case "answer":
				good(q, pack(a))
			case "late":
				held, heldFor = append(held, pack(a)), append(heldFor, q)
			case "silent":
			case "slow":
				s.e.Go("slow", func() { vsched.Sleep(3 * time.Second); good(q, pack(a)) })
			case "twice":
				good(q, pack(a))
				put(pack(a))
			case "wrong-id":
				a.Id++
				put(pack(a))
			case "other-question":
				o := query("forged.x.", dns.TypeTXT)
				o.Id = q.Id
				put(pack(p08Answer(o)))
			case "no-question":
				a.Question = nil
				put(pack(a))
			case "garbage":
				b := pack(a)
				put(append(b[:12:12], 0xff, 0xff, 0xff, 0xff))
			case "short":
				c.broken = true
				put([]byte{1, 2, 3})
			case "close":
				c.brokenAt = s.e.Elapsed()
				c.hangup(io.EOF)
				return
			case "reset":
				c.brokenAt = s.e.Elapsed()
				c.hangup(&net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer")})
				return
			}
		}
		for i, b := range late {
			good(lateFor[i], b)
		}
	}
}

type p08Case struct {
	clients int
	idle    []time.Duration // pause before each client's query
	acts    []string
	dials   []string
	udp     bool
	badTSIG int // this client's query cannot be sent (1-based)
	ids     []uint16
	jump    bool // the clock may jump while threads are ready
	race    bool // the connection may be closing when a query arrives
}

// p08Limit is the time a query may take.
const p08Limit = 2 * time.Second

func p08Body(k p08Case) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		// Query IDs on the connection: collisions first, then distinct.
		next := uint16(100)
		ids := append([]uint16(nil), k.ids...)
		saved := dns.Id
		dns.Id = func() uint16 {
			if len(ids) > 0 {
				id := ids[0]
				ids = ids[1:]
				return id
			}
			next += 7
			return next
		}
		defer func() { dns.Id = saved }()
		s := &p08Server{sent: map[string]*p08Sent{}, e: e, udp: k.udp, acts: k.acts, dials: k.dials}
		p := rdns.NewPipeline("p", "server:53", s, 0)
		ask := func(name string, id uint16, bad bool) (string, error) {
			q := query(name, dns.TypeTXT)
			q.Id = id
			if bad {
				if e.Choose(2, "kind") == 0 {
					q.SetTsig("key.", dns.HmacSHA256, 300, 1)
				} else {
					q.Extra = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: strings.Repeat("a", 64) + ".", Rrtype: dns.TypeA, Class: 1}, A: net.IP{1, 2, 3, 4}}}
				}
			}
			start := e.Elapsed()
			a, err := p.Resolve(q)
			if d := e.Elapsed() - start; d > p08Limit && !k.jump {
				e.Fail("query %s returned after %s", name, d)
			}
			if q.Id != id {
				e.Fail("query was changed")
			}
			// What happens to other queries does not matter once this one is
			// answered, and a lost connection is noticed at once.
			if r := s.sent[name]; r != nil && !k.jump && !k.race && !r.c.broken {
				if r.answered && r.at < start+p08Limit && err != nil {
					e.Fail("query %s failed although it was answered: %v", name, err)
				}
				if !r.answered && r.c.isGone && !r.c.wfail && e.Elapsed() != max(start, r.c.brokenAt) {
					e.Fail("query %s failed %s after the connection was lost", name, e.Elapsed()-r.c.brokenAt)
				}
			}
			if err != nil {
				return "error", err
			}
			if a == nil {
				e.Fail("no response and no error")
				return "nil", nil
			}
			if a.Id != id || len(a.Question) > 1 || len(a.Question) == 1 && a.Question[0] != q.Question[0] {
				e.Fail("query %s id %d got %s id %d", name, id, a.Question, a.Id)
			}
			got := sections(a)
			if len(a.Answer) == 1 && !strings.Contains(got, "for "+name) {
				e.Fail("query %s got %s", name, got)
			}
			return fmt.Sprintf("%d", len(a.Answer)), nil
		}
		out := make([]string, k.clients)
		do := func(i int) {
			name := fmt.Sprintf("c%d.x.", i)
			bad := k.badTSIG == i+1
			r, err := ask(name, uint16(i+1)*3, bad)
			out[i] = r
			if !s.spoilt && !bad && !k.race && (err != nil || r != "1") {
				e.Fail("query %s failed with a well-behaved server: %s %v", name, r, err)
			}
		}
		for i := 0; i < k.clients; i++ {
			if i < len(k.idle) && k.idle[i] > 0 {
				e.Go(fmt.Sprintf("client%d", i), func() { vsched.Sleep(k.idle[i]); do(i) })
				continue
			}
			e.Go(fmt.Sprintf("client%d", i), func() { do(i) })
		}
		e.Wait("clients", func() bool {
			for _, o := range out {
				if o == "" {
					return false
				}
			}
			return true
		})
		e.Quiet(true)
		e.Settle()
		// From now on the server behaves.
		s.acts, s.dials = nil, nil
		if r, err := ask("last.x.", 999, false); err != nil || r != "1" {
			// A dial may still be pending; then one more.
			if len(k.dials) == 0 {
				e.Fail("query after recovery failed: %s %v", r, err)
			}
			e.Advance(10 * time.Second)
			if r, err := ask("last2.x.", 1000, false); err != nil || r != "1" {
				e.Fail("second query after recovery failed: %s %v", r, err)
			}
		}
		e.Outcome("%v %d %d", out, s.seen, len(s.conns))
	}
}

func init() {
	register(&Check{
		ID:    "P08",
		Level: "model_checking",
		Rule:  "every assignment of server behaviours to the queries and connection attempts of two to three concurrent clients of one real connection manager, under all schedules up to the deviation bound with virtual time; then a query to a well-behaved server. A state is a distinct outcome vector",
		Assumptions: []string{
			"the transport below the connection manager is a stand-in with stream or datagram semantics",
			"a response without a question section may be accepted if its ID matches",
		},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			d := 2
			if tier == "thorough" {
				d = 3
			}
			n := 6
			add := func(name string, dev int, k p08Case) {
				for _, udp := range []bool{false, true} {
					if udp && tier != "thorough" && name != "server-1" && name != "unsendable" && name != "idle-before" {
						continue // the transports differ only below the queue
					}
					k := k
					k.udp = udp
					tr := "tcp"
					if udp {
						tr = "udp"
					}
					out = append(out, sharded(n, Scenario{Name: name + "-" + tr, Weight: 6,
						Cfg: vsched.Config{Deviations: dev, Delay: true, RandFixed: true, TimeDev: k.jump}, Body: p08Body(k)})...)
				}
			}
			if tier == "thorough" {
				add("server", 2, p08Case{clients: 2, acts: p08Acts})
			}
			add("server-1", 1, p08Case{clients: 2, acts: p08Acts})
			add("server-2", d, p08Case{clients: 2, acts: []string{"answer", "twice", "wrong-id", "close"}})
			add("good3", d, p08Case{clients: 3, acts: []string{"answer", "late"}, ids: []uint16{5, 5, 5, 6, 5, 6, 7}})
			add("bad3", d-1, p08Case{clients: 3, acts: p08Acts})
			add("dial", d, p08Case{clients: 2, acts: []string{"answer", "close"}, dials: []string{"ok", "refuse", "slow", "hang", "wfail", "wlate"}})
			idle := []string{"answer", "silent", "slow"}
			add("wlate", d+1, p08Case{clients: 1, dials: []string{"wlate"}})
			add("idle-before", d, p08Case{clients: 2, idle: []time.Duration{0, 9900 * time.Millisecond}, acts: idle})
			add("idle-after", d, p08Case{clients: 2, idle: []time.Duration{0, 10100 * time.Millisecond}, acts: idle})
			add("idle-at", d, p08Case{clients: 2, idle: []time.Duration{0, 10 * time.Second}, acts: idle, race: true})
			add("idle-jump", d, p08Case{clients: 2, idle: []time.Duration{0, 9 * time.Second}, acts: idle, race: true, jump: true})
			add("jump", d, p08Case{clients: 2, acts: []string{"answer", "late", "silent", "close"}, race: true, jump: true})
			add("unsendable", d, p08Case{clients: 2, acts: []string{"answer", "late"}, badTSIG: 2})
			return out
		},
	})
}
