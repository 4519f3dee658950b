package main

import (
	"fmt"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p25: authentic responses pass.

func worldNames() []string {
	var out []string
	for _, top := range []string{"nsec.", "hash.", "opt."} {
		for _, n := range []string{"", "www.", "WwW.", "below.www.", "alias.", "away.", "lost.", "mute.", "out.", "text.", "w.", "x.w.", "foo.w.", "a.foo.w.", "y.x.w.", "k.wa.",
			"ent.", "b.ent.", "c.ent.", "tree.", "b.tree.", "c.tree.", "missing.", "a.missing.", "zzz.", "aaa.",
			"sub.", "www.sub.", "alias.sub.", "q.w.sub.", "missing.sub.", "gap.", "deep.gap.", "www.deep.gap.", "no.deep.gap.", "no.gap.",
			"ins.", "www.ins.", "alias.ins.", "missing.ins.", "hole.", "un.hole.", "www.un.hole.", "no.un.hole.", "no.hole."} {
			out = append(out, n+top)
		}
	}
	return append(out, ".", "plain.", "www.plain.", "alias.plain.", "no.plain.", "nonexistent.", "www.nonexistent.")
}

var worldTypes = []uint16{dns.TypeA, dns.TypeTXT, dns.TypeDS, dns.TypeNS, dns.TypeCNAME, dns.TypeDNSKEY, dns.TypeSOA}

func (w *dworld) anchor() []rdns.TrustAnchor {
	ds := w.zones["."].ksk.ToDS(dns.SHA256)
	return []rdns.TrustAnchor{{Owner: ".", KeyTag: ds.KeyTag, Algorithm: ds.Algorithm, DigestType: ds.DigestType, Digest: ds.Digest}}
}

// judge compares what the element returns for an authentic response.
func p25Judge(w *dworld, q, a *dns.Msg, err error) string {
	if err != nil || a == nil {
		return fmt.Sprintf("got %s", shortMsg(a, err))
	}
	_, want := w.resolve(q)
	got := claim(a)
	if got.String() != want.String() {
		return fmt.Sprintf("got %s, true is %s", got, want)
	}
	if want.secure && !want.optout && !a.AuthenticatedData {
		return fmt.Sprintf("%s is not marked as authenticated", got)
	}
	if !want.secure && a.AuthenticatedData {
		return fmt.Sprintf("%s is marked as authenticated", got)
	}
	o := q.IsEdns0()
	do := o != nil && o.Do()
	b := q.Copy()
	if !do {
		b = query(q.Question[0].Name, q.Question[0].Qtype)
	}
	upstream, _ := w.resolve(b)
	wantAns, wantNs := upstream.Answer, upstream.Ns
	if !do {
		wantAns, wantNs = withoutDNSSEC(wantAns, q.Question[0].Qtype), withoutDNSSEC(wantNs, q.Question[0].Qtype)
	}
	show := func(rs []dns.RR) string {
		var s []string
		for _, r := range rs {
			if r.Header().Rrtype == dns.TypeRRSIG {
				s = append(s, "RRSIG "+strings.ToLower(r.Header().Name)+dns.TypeToString[r.(*dns.RRSIG).TypeCovered])
			} else {
				s = append(s, strings.ToLower(r.Header().Name)+" "+dns.TypeToString[r.Header().Rrtype]+" "+rdata(r))
			}
		}
		return strings.Join(sorted(s), "; ")
	}
	if g, x := show(a.Answer), show(wantAns); g != x {
		return fmt.Sprintf("answer is %s, expected %s", g, x)
	}
	if g, x := show(a.Ns), show(wantNs); g != x {
		return fmt.Sprintf("authority is %s, expected %s", g, x)
	}
	ro := a.IsEdns0()
	if (ro != nil) != (o != nil) {
		return "EDNS0 in the response does not match the query"
	}
	if ro != nil && !do && ro.Do() {
		return "DO set in the response to a query without"
	}
	return ""
}

type p25Env struct {
	w *dworld
	// fail makes lookup number n (counted from 1) fail in a way.
	n    int
	fail int
	how  int
	// ad: the upstream claims everything is authenticated
	ad bool
}

func (e *p25Env) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	e.n++
	if e.n == e.fail {
		switch e.how {
		case 0:
			return nil, errUpstream
		case 1:
			return nil, nil
		case 2:
			return reply(q, dns.RcodeServerFailure), nil
		case 3:
			return reply(q, dns.RcodeRefused), nil
		}
	}
	if o := q.IsEdns0(); o == nil || !o.Do() {
		return nil, fmt.Errorf("query without DO")
	}
	a, _ := e.w.resolve(q)
	a.AuthenticatedData = e.ad
	return a, nil
}
func (e *p25Env) String() string { return "world" }

func p25New(w *dworld, env rdns.Resolver) *rdns.DNSSECValidator {
	return must(rdns.NewDNSSECValidator("v", env, rdns.DNSSECValidatorOptions{TrustAnchors: w.anchor()}))
}

func p25Query(name string, typ uint16, edns int) *dns.Msg {
	q := query(name, typ)
	if edns > 0 {
		q.SetEdns0(1232, edns == 2)
	}
	return q
}

// p25Single asks for everything with a fresh and a used element, with every
// upstream failure.
func p25Single(part, parts int) func(*C) {
	return func(c *C) {
		w := newWorld(time.Now())
		warmEnv := &p25Env{w: w, ad: true}
		warm := p25New(w, warmEnv)
		i := 0
		for _, n := range worldNames() {
			for _, t := range worldTypes {
				if i++; i%parts != part {
					continue
				}
				for edns := 0; edns < 3; edns++ {
					if c.Full() {
						return
					}
					q := p25Query(n, t, edns)
					c.Case(fmt.Sprintf("%s %s, EDNS0 %d", n, dns.TypeToString[t], edns))
					c.Step()
					env := &p25Env{w: w, ad: edns == 1}
					v := p25New(w, env)
					var a *dns.Msg
					var err error
					before := full(q)
					c.Guard(func() { a, err = v.Resolve(q, rdns.ClientInfo{}) })
					if bad := p25Judge(w, q, a, err); bad != "" {
						c.Violation("%s", bad)
						continue
					}
					if full(q) != before {
						c.Violation("the query was changed")
					}
					c.State("%s %s", n, claim(a))
					a, err = warm.Resolve(q, rdns.ClientInfo{})
					if bad := p25Judge(w, q, a, err); bad != "" {
						c.Violation("after other queries: %s", bad)
					}
					if edns != 2 {
						continue
					}
					lookups := env.n
					for k := 1; k <= lookups; k++ {
						for how := 0; how < 4; how++ {
							c.Case(fmt.Sprintf("%s %s, lookup %d fails (%d)", n, dns.TypeToString[t], k, how))
							c.Step()
							env := &p25Env{w: w, fail: k, how: how}
							v := p25New(w, env)
							c.Guard(func() { a, err = v.Resolve(q, rdns.ClientInfo{}) })
							if err == nil && a != nil && a.Rcode != dns.RcodeServerFailure && a.Rcode != dns.RcodeRefused {
								if bad := p25Judge(w, q, a, err); bad != "" {
									c.Violation("%s", bad)
								}
							}
							c.Guard(func() { a, err = v.Resolve(q, rdns.ClientInfo{}) })
							if bad := p25Judge(w, q, a, err); bad != "" {
								c.Violation("once the upstream recovered: %s", bad)
							}
						}
					}
				}
			}
		}
	}
}

// p25History asks in all orders with the keys expiring in between.
func p25History(part, parts, depth int) func(*C) {
	return func(c *C) {
		start := time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)
		w := newWorld(start)
		names := []string{"www.nsec.", "missing.nsec.", "www.sub.hash.", "missing.hash.", "www.deep.gap.nsec.", "www.ins.opt.", "foo.w.hash.", "www.un.hole.nsec."}
		waits := []time.Duration{0, 3599 * time.Second, 3602 * time.Second, 100 * time.Hour}
		n := len(names) * len(waits)
		i := 0
		tuples(n, depth, func(t []int) {
			if i++; i%parts != part || c.Full() {
				return
			}
			var desc []string
			for _, x := range t {
				desc = append(desc, fmt.Sprintf("%s then %v", names[x/len(waits)], waits[x%len(waits)]))
			}
			c.Case(strings.Join(desc, ", "))
			c.Step()
			c.Exec(vsched.Config{Serial: true, Start: start}, func(e *vsched.Exec) {
				env := &p25Env{w: w}
				v := p25New(w, env)
				for _, x := range t {
					q := p25Query(names[x/len(waits)], dns.TypeA, 2)
					a, err := v.Resolve(q, rdns.ClientInfo{})
					if e.Elapsed() < 240*time.Hour-48*time.Hour-time.Minute {
						if bad := p25Judge(w, q, a, err); bad != "" {
							e.Fail("%s: %s", q.Question[0].Name, bad)
						}
					} else if err == nil && a != nil && a.Rcode != dns.RcodeServerFailure {
						// all signatures have expired
						e.Fail("%s: accepted with expired signatures: %s", q.Question[0].Name, claim(a))
					}
					e.Advance(waits[x%len(waits)])
				}
			})
			c.State("%v", t)
		})
	}
}

func init() {
	register(&Check{
		ID:          "P25",
		Level:       "model_checking",
		Rule:        "every name and type of the zone tree with every EDNS0 variant and every failing lookup, on a fresh and a used element; every order of queries with key and signature expiry in between; a state is a distinct outcome",
		Assumptions: []string{"one algorithm (ECDSA P-256) and digest (SHA-256)", "the upstream answers like a recursive resolver"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			depth := 2
			if tier == "thorough" {
				depth = 3
			}
			for i := 0; i < 8; i++ {
				out = append(out, Scenario{Name: fmt.Sprintf("single-%d", i), Run: p25Single(i, 8), CrashIsViolation: true})
				out = append(out, Scenario{Name: fmt.Sprintf("history-%d", i), Run: p25History(i, 8, depth), CrashIsViolation: true})
			}
			return out
		},
	})
}
