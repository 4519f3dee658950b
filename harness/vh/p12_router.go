package main

import (
	"fmt"
	"net"
	"regexp"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p12Spec describes one route.
type p12Spec struct {
	types, weekdays                         []string
	class, name, source, ecs, before, after string
	path, listener, sni                     string
	invert                                  bool
}

func (s p12Spec) String() string {
	var b []string
	add := func(k, v string) {
		if v != "" {
			b = append(b, k+"="+v)
		}
	}
	add("types", strings.Join(s.types, ","))
	add("class", s.class)
	add("name", s.name)
	add("source", s.source)
	add("ecs", s.ecs)
	add("weekdays", strings.Join(s.weekdays, ","))
	add("after", s.after)
	add("before", s.before)
	add("path", s.path)
	add("listener", s.listener)
	add("sni", s.sni)
	if s.invert {
		b = append(b, "invert")
	}
	return "{" + strings.Join(b, " ") + "}"
}

type p12Input struct {
	q  *dns.Msg
	ci rdns.ClientInfo
	t  time.Time
}

func (i p12Input) String() string {
	return fmt.Sprintf("%v from %v path=%q listener=%q sni=%q at %v, %s", i.q.Question, i.ci.SourceIP, i.ci.DoHPath, i.ci.Listener, i.ci.TLSServerName, i.t, sections(i.q))
}

func p12In(cidr string, ip net.IP) bool {
	// Compared bit by bit, not with the library.
	f := strings.Split(cidr, "/")
	base := net.ParseIP(f[0])
	var bits int
	fmt.Sscan(f[1], &bits)
	b4, i4 := base.To4(), ip.To4()
	if (b4 == nil) != (i4 == nil) {
		return false
	}
	b, x := []byte(base), []byte(ip)
	if b4 != nil {
		b, x = b4, i4
	}
	for k := 0; k < bits; k++ {
		if (b[k/8]^x[k/8])&(0x80>>(k%8)) != 0 {
			return false
		}
	}
	return true
}

func (s p12Spec) matches(in p12Input) bool {
	all := func() bool {
		qu := in.q.Question[0]
		if len(s.types) > 0 {
			ok := false
			for _, t := range s.types {
				ok = ok || dns.StringToType[t] == qu.Qtype
			}
			if !ok {
				return false
			}
		}
		if s.class != "" && dns.StringToClass[s.class] != qu.Qclass {
			return false
		}
		re := func(expr, v string) bool { return regexp.MustCompile(expr).MatchString(v) }
		if !re(s.name, qu.Name) || !re(s.path, in.ci.DoHPath) || !re(s.listener, in.ci.Listener) || !re(s.sni, in.ci.TLSServerName) {
			return false
		}
		if s.source != "" && (in.ci.SourceIP == nil || !p12In(s.source, in.ci.SourceIP)) {
			return false
		}
		if s.ecs != "" {
			var last net.IP
			if o := in.q.IsEdns0(); o != nil {
				for _, x := range o.Option {
					if e, ok := x.(*dns.EDNS0_SUBNET); ok {
						last = e.Address
					}
				}
			}
			if last == nil || !p12In(s.ecs, last) {
				return false
			}
		}
		l := in.t.Local()
		if len(s.weekdays) > 0 {
			ok := false
			for _, w := range s.weekdays {
				ok = ok || strings.EqualFold(w, l.Weekday().String()[:3])
			}
			if !ok {
				return false
			}
		}
		mins := l.Hour()*60 + l.Minute()
		tod := func(t string) int {
			var h, m int
			fmt.Sscanf(t, "%d:%d", &h, &m)
			return h*60 + m
		}
		if s.before != "" && mins >= tod(s.before) {
			return false
		}
		if s.after != "" && mins < tod(s.after) {
			return false
		}
		return true
	}()
	return all != s.invert
}

// p12Conditions lists the values of each condition; index 0 is "not set".
func p12Conditions() [][]func(*p12Spec) {
	f := func(fs ...func(*p12Spec)) []func(*p12Spec) { return fs }
	return [][]func(*p12Spec){
		f(func(s *p12Spec) { s.types = []string{"A"} }, func(s *p12Spec) { s.types = []string{"MX", "AAAA"} }),
		f(func(s *p12Spec) { s.class = "IN" }, func(s *p12Spec) { s.class = "CH" }),
		f(func(s *p12Spec) { s.name = `(^|\.)test\.$` }, func(s *p12Spec) { s.name = `^x` }),
		f(func(s *p12Spec) { s.source = "10.0.0.0/9" }, func(s *p12Spec) { s.source = "2001:db8::/33" }),
		f(func(s *p12Spec) { s.ecs = "10.0.0.0/9" }, func(s *p12Spec) { s.ecs = "2001:db8::/33" }),
		f(func(s *p12Spec) { s.weekdays = []string{"mon"} }, func(s *p12Spec) { s.weekdays = []string{"sun", "tue"} }),
		f(func(s *p12Spec) { s.before = "09:30" }, func(s *p12Spec) { s.before = "00:00" }),
		f(func(s *p12Spec) { s.after = "09:30" }, func(s *p12Spec) { s.after = "23:59" }, func(s *p12Spec) { s.after = "08" }),
		f(func(s *p12Spec) { s.path = "^/a" }),
		f(func(s *p12Spec) { s.listener = "^l1$" }),
		f(func(s *p12Spec) { s.sni = "example" }),
	}
}

func p12Inputs(small bool) []p12Input {
	names := []string{"x.test.", "y.other.", "test."}
	types := []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeTXT}
	classes := []uint16{1, 3}
	src := []net.IP{nil, net.IP{10, 1, 2, 3}, net.ParseIP("10.128.0.1"), net.ParseIP("2001:db8::1"), net.ParseIP("2001:db8:8000::1")}
	ecs := [][]dns.EDNS0{nil, {subnet("10.1.0.0", 16)}, {subnet("10.128.0.0", 16)}, {subnet("10.1.0.0", 16), subnet("2001:db8::", 48)}, {subnet("2001:db8:ffff::", 48), subnet("10.127.0.0", 16)}, {&dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0011223344556677"}}}
	day := func(d, h, m, s int) time.Time { return time.Date(2026, 3, d, h, m, s, 0, time.Local) } // 1st is a Sunday
	times := []time.Time{day(2, 9, 29, 59), day(2, 9, 30, 0), day(1, 0, 0, 0), day(3, 23, 59, 59), day(4, 8, 0, 0), day(7, 7, 59, 59), day(2, 0, 0, 1)}
	cis := []rdns.ClientInfo{{}, {DoHPath: "/abc", Listener: "l1", TLSServerName: "dns.example.com"}, {DoHPath: "/b/a", Listener: "l10", TLSServerName: "Example"}}
	if small {
		names, types, classes = names[:2], types[:2], classes
		src, ecs, times, cis = src[:3], ecs[:2], times[:2], cis[:2]
	}
	var out []p12Input
	for _, n := range names {
		for _, ty := range types {
			for _, cl := range classes {
				for _, s := range src {
					for _, ec := range ecs {
						for _, t := range times {
							for _, ci := range cis {
								q := query(n, ty)
								q.Question[0].Qclass = cl
								if ec != nil {
									withOpt(q, false, ec...)
								}
								c := ci
								c.SourceIP = s
								out = append(out, p12Input{q, c, t})
							}
						}
					}
				}
			}
		}
	}
	return out
}

// p12Check runs every input through the router made of the given routes.
func p12Check(c *C, specs []p12Spec, inputs []p12Input) {
	c.Case(fmt.Sprint(specs))
	var clock time.Time
	vsched.SetClockFunc(func() time.Time { return clock })
	defer vsched.SetClockFunc(nil)
	answers := []*dns.Msg{reply(query("p.", 1), 0), nil, nil}
	errs := []error{nil, errUpstream, nil}
	hit, calls := -1, 0
	var gotQ *dns.Msg
	var gotCI rdns.ClientInfo
	r := rdns.NewRouter("r")
	for i, s := range specs {
		rt, err := rdns.NewRoute(s.name, s.class, s.types, s.weekdays, s.before, s.after, s.source, s.ecs, s.path, s.listener, s.sni,
			&fn{fmt.Sprintf("r%d", i), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				hit, gotQ, gotCI = i, q, ci
				calls++
				return answers[i%3], errs[i%3]
			}})
		if err != nil {
			c.Violation("route %v not accepted: %v", s, err)
			return
		}
		rt.Invert(s.invert)
		r.Add(rt)
	}
	for _, in := range inputs {
		clock = in.t
		hit, calls = -1, 0
		a, err := r.Resolve(in.q, in.ci)
		want := -1
		for i, s := range specs {
			if s.matches(in) {
				want = i
				break
			}
		}
		c.Step()
		switch {
		case hit != want || calls > 1:
			c.Violation("query %v took route %d instead of %d of %v", in, hit, want, specs)
			return
		case want < 0:
			if a != nil || err == nil {
				c.Violation("query %v matches no route of %v but got %s", in, specs, shortMsg(a, err))
				return
			}
		case a != answers[want%3] || err != errs[want%3]:
			c.Violation("result of route %d was not passed on: %s", want, shortMsg(a, err))
			return
		case gotQ != in.q || gotCI.Listener != in.ci.Listener || gotCI.DoHPath != in.ci.DoHPath || !gotCI.SourceIP.Equal(in.ci.SourceIP):
			c.Violation("route %d was given a different query or client", want)
			return
		}
	}
	c.State("%v", specs)
}

func init() {
	register(&Check{
		ID:    "P12",
		Level: "model_checking",
		Rule:  "every route with up to two (thorough: three) conditions of the alphabet, plain and inverted, and every ordered list of up to three routes with one condition, against every query, client and instant of the input alphabet; a state is a distinct router, a transition one routed query",
		Scenarios: func(tier string) []Scenario {
			conds := p12Conditions()
			var out []Scenario
			// Combinations of conditions in one route.
			type pick struct{ field, value int }
			var combos [][]pick
			max := 2
			if tier == "thorough" {
				max = 3
			}
			var rec func(field int, cur []pick)
			rec = func(field int, cur []pick) {
				if field == len(conds) {
					combos = append(combos, append([]pick(nil), cur...))
					return
				}
				rec(field+1, cur)
				if len(cur) < max {
					for v := range conds[field] {
						rec(field+1, append(cur, pick{field, v}))
					}
				}
			}
			rec(0, nil)
			const parts = 16
			for p := 0; p < parts; p++ {
				out = append(out, Scenario{Name: fmt.Sprintf("combine-%d", p), Weight: 5, Run: func(c *C) {
					in := p12Inputs(false)
					for i, cb := range combos {
						if i%parts != p || c.Full() {
							continue
						}
						var s p12Spec
						for _, k := range cb {
							conds[k.field][k.value](&s)
						}
						inv := s
						inv.invert = true
						p12Check(c, []p12Spec{s}, in)
						p12Check(c, []p12Spec{inv}, in)
					}
				}})
			}
			// Lists of routes.
			var singles []p12Spec
			singles = append(singles, p12Spec{})
			for _, f := range conds {
				for v, set := range f {
					if v > 0 && tier != "thorough" {
						continue
					}
					var s p12Spec
					set(&s)
					singles = append(singles, s)
					s.invert = true
					singles = append(singles, s)
				}
			}
			for i := range singles {
				out = append(out, Scenario{Name: fmt.Sprintf("list-%d", i), Weight: 3, Run: func(c *C) {
					in := p12Inputs(true)
					p12Check(c, []p12Spec{singles[i]}, in)
					for j := range singles {
						p12Check(c, []p12Spec{singles[i], singles[j]}, in)
						for k := range singles {
							if c.Full() {
								return
							}
							p12Check(c, []p12Spec{singles[i], singles[j], singles[k]}, in)
						}
					}
				}})
			}
			return out
		},
	})
}
