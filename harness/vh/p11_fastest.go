package main

import (
	"fmt"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

var p11Outs = []struct {
	name string
	good bool
}{{"answer", true}, {"error", false}, {"servfail", false}, {"drop", true}, {"nxdomain", true}, {"refused", true}}

// p11Fastest: callers ask a parallel group of n members whose response times
// are a permutation of 1..n seconds.
func p11Fastest(n, callers, outs int, instant bool) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		outcome := make([]int, n)
		delay := make([]time.Duration, n)
		e.Quiet(true)
		used := map[int]bool{}
		for i := range outcome {
			outcome[i] = e.Choose(outs, "outcome")
			if instant {
				continue
			}
			k := e.Choose(n-i, "delay")
			for d := 1; ; d++ {
				if used[d] {
					continue
				}
				if k == 0 {
					used[d] = true
					delay[i] = time.Duration(d) * time.Second
					break
				}
				k--
			}
		}
		e.Quiet(false)
		want := make([]string, callers)
		calls := 0
		var members []rdns.Resolver
		for i := 0; i < n; i++ {
			members = append(members, &fn{fmt.Sprintf("m%d", i), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				c := int(ci.SourceIP[3])
				calls++
				if full(q) != want[c] {
					e.Fail("member %d was asked %s instead of %s", i, full(q), want[c])
				}
				if instant {
					e.Pause()
				} else {
					vsched.Sleep(delay[i])
				}
				var a *dns.Msg
				var err error
				switch p11Outs[outcome[i]].name {
				case "answer":
					a = reply(q, 0, rr(fmt.Sprintf("a.test. 60 IN TXT m%d-q%d", i, c)))
				case "error":
					err = fmt.Errorf("failure m%d-q%d", i, c)
				case "servfail":
					a = reply(q, dns.RcodeServerFailure, rr(fmt.Sprintf("a.test. 60 IN TXT m%d-q%d", i, c)))
				case "nxdomain":
					a = reply(q, dns.RcodeNameError, rr(fmt.Sprintf("a.test. 60 IN TXT m%d-q%d", i, c)))
				case "refused":
					a = reply(q, dns.RcodeRefused, rr(fmt.Sprintf("a.test. 60 IN TXT m%d-q%d", i, c)))
				}
				// What an element further down may do with its query.
				q.Id = 1
				q.Question[0].Name = "changed."
				return a, err
			}})
		}
		g := rdns.NewFastest("g", members...)
		best, lastM := -1, 0
		for i := range members {
			if p11Outs[outcome[i]].good && (best < 0 || delay[i] < delay[best]) {
				best = i
			}
			if delay[i] > delay[lastM] {
				lastM = i
			}
		}
		ask := func(c int) {
			q := query("a.test.", dns.TypeA)
			q.Id = uint16(100 + c)
			withOpt(q, c == 1)
			want[c] = full(q)
			start := e.Elapsed()
			a, err := g.Resolve(q, rdns.ClientInfo{SourceIP: []byte{10, 0, 0, byte(c)}})
			took := e.Elapsed() - start
			var ok bool
			var tag string
			src := best
			if best < 0 {
				src = lastM
			}
			if took > delay[src] {
				e.Fail("query %d returned after %v instead of %v (%v %v)", c, took, delay[src], outcome, delay)
			}
			if instant {
				// Any good response if there is one.
				for i := range members {
					if best >= 0 && !p11Outs[outcome[i]].good {
						continue
					}
					tag := fmt.Sprintf("m%d-q%d", i, c)
					if (p11Outs[outcome[i]].name == "drop" && a == nil && err == nil) || (err != nil && strings.Contains(err.Error(), tag)) || (a != nil && strings.Contains(sections(a), tag)) {
						src = i
						goto done
					}
				}
				e.Fail("query %d got %s, outcomes %v", c, shortMsg(a, err), outcome)
			}
			ok = false
			tag = fmt.Sprintf("m%d-q%d", src, c)
			switch p11Outs[outcome[src]].name {
			case "error":
				ok = err != nil && strings.Contains(err.Error(), tag)
			case "drop":
				ok = a == nil && err == nil
			default:
				ok = a != nil && err == nil && strings.Contains(sections(a), tag)
			}
			if best < 0 && !ok {
				// Any member's failure will do.
				ok = err != nil || (a != nil && a.Rcode == dns.RcodeServerFailure && strings.Contains(sections(a), fmt.Sprintf("-q%d", c)))
			}
			if !ok {
				e.Fail("query %d got %s instead of the outcome of m%d (%s), outcomes %v times %v", c, shortMsg(a, err), src, p11Outs[outcome[src]].name, outcome, delay)
			}
		done:
			if full(q) != want[c] {
				e.Fail("query %d was changed to %s", c, full(q))
			}
			// The caller goes on using its query.
			q.Id = 9
			q.Question[0].Name = "reused."
			e.Outcome("%d:m%d", c, src)
		}
		var ts []*vsched.Thread
		for c := 0; c < callers; c++ {
			ts = append(ts, e.Go(fmt.Sprintf("q%d", c), func() { ask(c) }))
		}
		e.Join(ts...)
		e.Quiet(true)
		e.Advance(10 * time.Second)
		e.Settle()
		if e.Alive() > 1 {
			e.Fail("%d threads left behind", e.Alive()-1)
		}
		if calls != n*callers {
			e.Fail("%d member calls instead of %d", calls, n*callers)
		}
	}
}

func init() {
	register(&Check{
		ID:          "P11",
		Level:       "model_checking",
		Rule:        "every assignment of outcomes and order of completion of 2-3 members, with every schedule of one or two concurrent queries within the deviation bound; every reachable/unreachable assignment of addresses for the connection-speed element; a state is a distinct outcome",
		Assumptions: []string{"members complete at distinct times; members that complete at the same instant may be taken in either order"},
		Scenarios: func(tier string) []Scenario {
			x := 0
			if tier == "thorough" {
				x = 1
			}
			var out []Scenario
			add := func(name string, d int, body func(*vsched.Exec)) {
				out = append(out, sharded(8, Scenario{Name: name, Weight: 10, Cfg: vsched.Config{Deviations: d + x}, Body: body})...)
			}
			add("timed-2x1", 4, p11Fastest(2, 1, 6, false))
			add("timed-3x1", 2, p11Fastest(3, 1, 5, false))
			add("timed-2x2", 1, p11Fastest(2, 2, 4, false))
			add("instant-2x1", 4, p11Fastest(2, 1, 6, true))
			add("instant-3x1", 1, p11Fastest(3, 1, 4, true))
			out = append(out, sharded(8, Scenario{Name: "instant-2x2", Weight: 10, Cfg: vsched.Config{Deviations: 3 + x, Delay: true}, Body: p11Fastest(2, 2, 4, true)})...)
			out = append(out, p11TCP(tier)...)
			return out
		},
	})
}
