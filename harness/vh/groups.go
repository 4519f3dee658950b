package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// Resolver groups: P09 (failover) and P10 (order of preference).

const groupReset = 10 * time.Second

// gOutcome is something a group member can do with a query.
type gOutcome struct {
	name string
	// bad reports whether the documentation calls this a failure.
	bad func(servfail, empty bool) bool
	mk  func(q *dns.Msg) (*dns.Msg, error)
}

func gBad(servfail, empty bool) bool   { return true }
func gGood(servfail, empty bool) bool  { return false }
func gEmpty(servfail, empty bool) bool { return empty }

func gEDE(code uint16) func(q *dns.Msg) (*dns.Msg, error) {
	return func(q *dns.Msg) (*dns.Msg, error) {
		a := reply(q, dns.RcodeNameError)
		a.SetEdns0(1232, false)
		o := a.IsEdns0()
		o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: code})
		return a, nil
	}
}

func gReply(rcode int, records ...string) func(q *dns.Msg) (*dns.Msg, error) {
	return func(q *dns.Msg) (*dns.Msg, error) {
		return reply(q, rcode, rrs(records...)...), nil
	}
}

var gOutcomes = []gOutcome{
	{"answer", gGood, gReply(0, "a.test. 60 IN A 10.0.0.1")},
	{"error", gBad, func(q *dns.Msg) (*dns.Msg, error) { return nil, errUpstream }},
	{"servfail", func(s, e bool) bool { return s || e }, gReply(dns.RcodeServerFailure)},
	{"refused", gBad, gReply(dns.RcodeRefused)},
	{"notimp", gBad, gReply(dns.RcodeNotImplemented)},
	{"empty", gEmpty, gReply(0)},
	{"nxdomain", gEmpty, gReply(dns.RcodeNameError)},
	{"blocked", gGood, gEDE(dns.ExtendedErrorCodeBlocked)},
	{"censored", gGood, gEDE(dns.ExtendedErrorCodeCensored)},
	{"filtered", gGood, gEDE(dns.ExtendedErrorCodeFiltered)},
	{"drop", gGood, func(q *dns.Msg) (*dns.Msg, error) { return nil, nil }},
	{"alias+answer", gGood, gReply(0, "a.test. 60 IN CNAME b.test.", "b.test. 60 IN A 10.0.0.1")},
}

type gKind struct {
	name  string
	n     int
	reset time.Duration
	mk    func(servfail, empty bool, m ...rdns.Resolver) rdns.Resolver
}

var gKinds = []gKind{
	{"fail-rotate", 0, 0, func(s, e bool, m ...rdns.Resolver) rdns.Resolver {
		return rdns.NewFailRotate("g", rdns.FailRotateOptions{ServfailError: s, EmptyError: e}, m...)
	}},
	{"fail-back", 0, groupReset, func(s, e bool, m ...rdns.Resolver) rdns.Resolver {
		return rdns.NewFailBack("g", rdns.FailBackOptions{ServfailError: s, EmptyError: e, ResetAfter: groupReset}, m...)
	}},
	{"fail-back-now", 0, 0, func(s, e bool, m ...rdns.Resolver) rdns.Resolver {
		return rdns.NewFailBack("g", rdns.FailBackOptions{ServfailError: s, EmptyError: e}, m...)
	}},
	{"random", 0, groupReset, func(s, e bool, m ...rdns.Resolver) rdns.Resolver {
		return rdns.NewRandom("g", rdns.RandomOptions{ServfailError: s, EmptyError: e, ResetAfter: groupReset}, m...)
	}},
	{"random-now", 0, 0, func(s, e bool, m ...rdns.Resolver) rdns.Resolver {
		return rdns.NewRandom("g", rdns.RandomOptions{ServfailError: s, EmptyError: e}, m...)
	}},
	{"load-balance", 0, 0, func(s, e bool, m ...rdns.Resolver) rdns.Resolver {
		return rdns.NewLoadBalance("g", rdns.LoadBalanceOptions{ServfailError: s, EmptyError: e, FailurePenalty: time.Second}, m...)
	}},
}

type gCall struct {
	caller, member int
	outcome        int
	start, end     int64
	a              *dns.Msg
	err            error
}

// gRun is a group under observation.
type gRun struct {
	e        *vsched.Exec
	kind     gKind
	sf, em   bool
	n        int
	group    rdns.Resolver
	calls    []*gCall
	outcome  func(caller, member int) int
	takes    time.Duration
	pause    bool
	maxCalls int
}

func newGRun(e *vsched.Exec, kind gKind, n int, sf, em bool) *gRun {
	g := &gRun{e: e, kind: kind, sf: sf, em: em, n: n, maxCalls: 8}
	var m []rdns.Resolver
	for i := 0; i < n; i++ {
		m = append(m, &fn{fmt.Sprintf("m%d", i), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			c := &gCall{caller: int(ci.SourceIP[3]), member: i, start: e.Seq()}
			g.calls = append(g.calls, c)
			if k := len(g.of(c.caller)); k > g.maxCalls {
				e.Fail("query %d was sent to members %d times and is still being retried", c.caller, k)
			}
			c.outcome = g.outcome(c.caller, i)
			if g.takes > 0 {
				vsched.Sleep(g.takes)
			} else if g.pause {
				e.Pause()
			}
			c.a, c.err = gOutcomes[c.outcome].mk(q)
			c.end = e.Seq()
			return c.a, c.err
		}})
	}
	g.group = kind.mk(sf, em, m...)
	return g
}

func (g *gRun) of(caller int) []*gCall {
	var out []*gCall
	for _, c := range g.calls {
		if c.caller == caller {
			out = append(out, c)
		}
	}
	return out
}

func (g *gRun) bad(c *gCall) bool { return gOutcomes[c.outcome].bad(g.sf, g.em) }

// ask resolves one query and checks what holds for any group.
func (g *gRun) ask(caller int) (ok bool) {
	e := g.e
	q := query("a.test.", dns.TypeA)
	q.Id = uint16(caller)
	start := e.Seq()
	a, err := g.group.Resolve(q, rdns.ClientInfo{SourceIP: []byte{10, 0, 0, byte(caller)}})
	mine := g.of(caller)
	var tr []string
	for _, c := range mine {
		tr = append(tr, fmt.Sprintf("m%d:%s", c.member, gOutcomes[c.outcome].name))
	}
	trace := strings.Join(tr, " ")
	e.Outcome("%d[%s]", caller, trace)
	if len(mine) == 0 {
		if err == nil {
			e.Fail("query %d: no member asked but no error", caller)
		}
	} else {
		last := mine[len(mine)-1]
		for _, c := range mine[:len(mine)-1] {
			if !g.bad(c) {
				e.Fail("query %d went on after a good response: %s", caller, trace)
			}
		}
		if !g.bad(last) {
			if a != last.a || err != nil {
				e.Fail("query %d: the good response of m%d was not returned: %s, got %s", caller, last.member, trace, shortMsg(a, err))
			}
			return true
		}
		// What is reported must be a failure.
		if err == nil {
			found := false
			for _, c := range mine {
				if g.bad(c) && c.a == a && a != nil {
					found = true
				}
			}
			if !found {
				e.Fail("query %d: all attempts failed (%s) but got %s", caller, trace, shortMsg(a, err))
			}
		}
	}
	end := e.Seq()
	// A failure is reported: no member in service may have been fine.
	for m := 0; m < g.n; m++ {
		fine := true
		for _, c := range g.calls {
			if c.member != m || !g.bad(c) {
				continue
			}
			// A failure before the query only matters if it takes the member
			// out of service.
			if c.caller == caller || c.end == 0 || c.end >= start || g.kind.name == "random" || g.kind.name == "random-now" {
				if c.start <= end {
					fine = false
				}
			}
		}
		if fine {
			e.Fail("query %d failed (%s) although m%d had no failure", caller, trace, m)
		}
	}
	return false
}

// probe checks that a group at rest still has all its members.
func (g *gRun) probe(caller int) {
	e := g.e
	e.Quiet(true)
	e.Settle()
	e.Advance(3 * groupReset)
	e.Settle()
	g.pause, g.takes = false, 0
	g.outcome = func(int, int) int { return 0 }
	if !g.ask(caller) {
		e.Fail("healthy group did not answer")
	}
	g.outcome = func(int, int) int { return 1 }
	g.ask(caller + 1)
	seen := map[int]int{}
	for _, c := range g.of(caller + 1) {
		seen[c.member]++
	}
	for m := 0; m < g.n; m++ {
		if seen[m] != 1 {
			e.Fail("at the end, member %d of %d was asked %d times by a query all members fail", m, g.n, seen[m])
		}
	}
	e.Settle()
	e.Advance(3 * groupReset)
	e.Settle()
	g.outcome = func(int, int) int { return 0 }
	if !g.ask(caller + 2) {
		e.Fail("recovered group did not answer")
	}
}

// p09Vector: one query, then a second, for every assignment of outcomes.
func p09Vector(kind gKind, n int, outs []int, sf, em bool) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		g := newGRun(e, kind, n, sf, em)
		vec := make([]int, n)
		for i := range vec {
			vec[i] = outs[e.Choose(len(outs), "outcome")]
		}
		g.outcome = func(_, m int) int { return vec[m] }
		g.ask(1)
		g.ask(2)
		g.probe(10)
	}
}

// p09Sched: concurrent queries. Each member's behaviour is fixed (flap=false)
// or chosen per call.
func p09Sched(kind gKind, n, callers int, outs []int, flap bool, takes time.Duration) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		g := newGRun(e, kind, n, true, false)
		e.Quiet(true)
		vec := make([]int, n)
		if !flap {
			for i := range vec {
				vec[i] = outs[e.Choose(len(outs), "outcome")]
			}
		}
		e.Quiet(false)
		g.takes, g.pause = takes, true
		g.outcome = func(_, m int) int {
			if flap {
				return outs[e.Choose(len(outs), "outcome")]
			}
			return vec[m]
		}
		var ts []*vsched.Thread
		for i := 0; i < callers; i++ {
			ts = append(ts, e.Go(fmt.Sprintf("q%d", i), func() { g.ask(i + 1) }))
		}
		e.Join(ts...)
		g.probe(10)
	}
}

func init() {
	register(&Check{
		ID:    "P09",
		Level: "model_checking",
		Rule:  "every assignment of outcomes to 2-3 members for every group type and failure option, and every schedule of 2-3 concurrent queries within the deviation bound (including reset timers firing early), each followed by a probe that every member is still in the group exactly once; a state is a distinct history of (query, member, outcome)",
		Assumptions: []string{"random numbers are enumerated completely for member choice and by 4 representatives for weighted choice",
			"a member counts as fine if it has no failed call during the query (random: none in the whole history)"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			all := make([]int, len(gOutcomes))
			for i := range all {
				all[i] = i
			}
			small := []int{0, 1, 3, 2, 5, 7, 10}
			for _, k := range gKinds {
				for _, sf := range []bool{false, true} {
					for _, em := range []bool{false, true} {
						o3 := small
						if tier == "thorough" {
							o3 = all
						}
						out = append(out,
							Scenario{Name: fmt.Sprintf("vector-%s-2-%v-%v", k.name, sf, em), Cfg: vsched.Config{Serial: true, RandFixed: k.name == "load-balance"}, Body: p09Vector(k, 2, all, sf, em)},
							Scenario{Name: fmt.Sprintf("vector-%s-3-%v-%v", k.name, sf, em), Weight: 5, Cfg: vsched.Config{Serial: true, RandFixed: k.name == "load-balance"}, Body: p09Vector(k, 3, o3, sf, em)})
					}
				}
				if k.name == "load-balance" {
					out = append(out, Scenario{Name: "choice-load-balance-2", Weight: 5, Cfg: vsched.Config{Serial: true}, Body: p09Vector(k, 2, []int{0, 1, 10}, true, true)})
				}
				d := 3
				if tier == "thorough" {
					d = 4
				}
				rnd := 0
				if strings.HasPrefix(k.name, "random") {
					rnd = 1
				}
				cfg := func(d int) vsched.Config {
					return vsched.Config{Deviations: d, Delay: true, TimeDev: k.reset > 0, RandFixed: k.name == "load-balance"}
				}
				out = append(out, sharded(8, Scenario{Name: "sched-" + k.name + "-2x2", Weight: 30, Cfg: cfg(d - rnd), Body: p09Sched(k, 2, 2, []int{0, 1, 2}, false, 0)})...)
				out = append(out, sharded(8, Scenario{Name: "sched-" + k.name + "-3x2", Weight: 30, Cfg: cfg(d - rnd), Body: p09Sched(k, 3, 2, []int{0, 1}, false, 0)})...)
				out = append(out, sharded(8, Scenario{Name: "sched-" + k.name + "-2x3", Weight: 30, Cfg: cfg(d - 1), Body: p09Sched(k, 2, 3, []int{0, 1}, false, 0)})...)
				out = append(out, sharded(4, Scenario{Name: "flap-" + k.name + "-2x2", Weight: 20, Cfg: cfg(d - rnd), Body: p09Sched(k, 2, 2, []int{0, 1}, true, 0)})...)
				out = append(out, Scenario{Name: "slow-" + k.name + "-3x2", Weight: 10, Cfg: cfg(d - 1 - rnd), Body: p09Sched(k, 3, 2, []int{0, 1}, false, 2*time.Second)})
				out = append(out, Scenario{Name: "veryslow-" + k.name + "-2x2", Weight: 10, Cfg: cfg(d - 1), Body: p09Sched(k, 2, 2, []int{0, 1}, false, 2*groupReset)})
				out = append(out, Scenario{Name: "veryslow-" + k.name + "-3x1", Cfg: cfg(d), Body: p09Sched(k, 3, 1, []int{0, 1}, false, 2*groupReset)})
			}
			return out
		},
	})
}

var _ = errors.New
