package main

import (
	"fmt"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p10History: all histories of queries, member outcomes and clock movements,
// compared with the documented order of preference.
func p10History(kind gKind, n, depth int) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		g := newGRun(e, kind, n, false, false)
		var (
			now      time.Duration
			active   int
			deadline time.Duration = -1
			back                   = make([]time.Duration, n) // random: back in service at
			tried    map[int]bool
			rotation int
		)
		inService := func(m int) bool { return back[m] <= now }
		g.outcome = func(caller, m int) int {
			// Is it m's turn?
			switch kind.name {
			case "fail-rotate":
				if m != active {
					e.Fail("query %d went to m%d instead of m%d", caller, m, active)
				}
			case "fail-back", "fail-back-now":
				want := active
				for tried[want] && len(tried) < n {
					want = (want + 1) % n
				}
				if m != want {
					e.Fail("query %d went to m%d instead of m%d at %v", caller, m, want, now)
				}
			case "random":
				if !inService(m) {
					e.Fail("query %d went to m%d at %v, which is out of service until %v", caller, m, now, back[m])
				}
				if tried[m] {
					e.Fail("query %d went to m%d twice", caller, m)
				}
			case "load-balance", "random-now":
				if tried[m] {
					e.Fail("query %d went to m%d twice", caller, m)
				}
			case "round-robin":
				if m != rotation%n {
					e.Fail("query %d went to m%d instead of m%d", caller, m, rotation%n)
				}
				rotation++
			}
			tried[m] = true
			o := e.Choose(2, "outcome")
			if o == 1 {
				switch kind.name {
				case "fail-rotate":
					active = (active + 1) % n
				case "fail-back":
					if m == active {
						active = (active + 1) % n
						deadline = now + groupReset
					}
				case "random":
					back[m] = now + groupReset
				}
			}
			return o
		}
		if kind.name == "round-robin" {
			var m []rdns.Resolver
			for i := 0; i < n; i++ {
				m = append(m, &fn{fmt.Sprintf("m%d", i), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					return gOutcomes[g.outcome(int(q.Id), i)].mk(q)
				}})
			}
			g.group = rdns.NewRoundRobin("g", m...)
		}
		steps := []time.Duration{0, time.Second, groupReset - time.Second, groupReset}
		ops := 1
		if kind.reset > 0 {
			ops = len(steps)
		}
		caller := 0
		for i := 0; i < depth; i++ {
			op := e.Choose(ops, "op")
			if op > 0 {
				e.Advance(steps[op])
				e.Settle()
				now += steps[op]
				if deadline >= 0 && deadline <= now {
					active, deadline = 0, -1
				}
				e.Outcome("+%v", steps[op])
				continue
			}
			caller++
			tried = map[int]bool{}
			eligible := 0
			for m := 0; m < n; m++ {
				if kind.name != "random" || inService(m) {
					eligible++
				}
			}
			if kind.name == "round-robin" {
				before := rotation
				g.group.Resolve(query("a.test.", dns.TypeA), rdns.ClientInfo{})
				if rotation != before+1 {
					e.Fail("query %d was sent to %d members", caller, rotation-before)
				}
			} else if !g.ask(caller) && len(tried) != eligible {
				e.Fail("query %d gave up after %d of %d members in service", caller, len(tried), eligible)
			}
			e.Settle()
		}
	}
}

// p10RoundRobin: concurrent queries are spread evenly.
func p10RoundRobin(n, callers, rounds int) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		count := make([]int, n)
		var m []rdns.Resolver
		for i := 0; i < n; i++ {
			m = append(m, &fn{fmt.Sprintf("m%d", i), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				count[i]++
				e.Pause()
				if i == 0 {
					return nil, errUpstream
				}
				return reply(q, 0), nil
			}})
		}
		g := rdns.NewRoundRobin("g", m...)
		var ts []*vsched.Thread
		for i := 0; i < callers; i++ {
			ts = append(ts, e.Go(fmt.Sprintf("q%d", i), func() {
				for r := 0; r < rounds; r++ {
					g.Resolve(query("a.test.", dns.TypeA), rdns.ClientInfo{})
				}
			}))
		}
		e.Join(ts...)
		total := callers * rounds
		for i, c := range count {
			want := total / n
			if i < total%n {
				want++
			}
			if c != want {
				e.Fail("%d queries were spread as %v", total, count)
			}
		}
		e.Outcome("%v", count)
		e.Quiet(true)
		for k := 0; k < n; k++ {
			before := count[(total+k)%n]
			g.Resolve(query("a.test.", dns.TypeA), rdns.ClientInfo{})
			if count[(total+k)%n] != before+1 {
				e.Fail("after %d concurrent queries, query %d did not go to m%d", total, k, (total+k)%n)
			}
		}
	}
}

// p10Rotate: concurrent failures of the preferred member move the group on by
// one member only, and (fail-back) the way back is at the exact time.
func p10Rotate(kind gKind, callers int) func(*vsched.Exec) {
	const n = 3
	return func(e *vsched.Exec) {
		g := newGRun(e, kind, n, false, false)
		g.pause = true
		g.outcome = func(caller, m int) int {
			switch m {
			case 0:
				return 1
			case 2:
				e.Fail("query %d was sent to the third member although the second never failed", caller)
			}
			return 0
		}
		var ts []*vsched.Thread
		for i := 0; i < callers; i++ {
			ts = append(ts, e.Go(fmt.Sprintf("q%d", i), func() { g.ask(i + 1) }))
		}
		e.Join(ts...)
		e.Quiet(true)
		g.pause = false
		e.Settle()
		expect := func(caller, member int, when string) {
			g.ask(caller)
			if c := g.of(caller); len(c) == 0 || c[0].member != member {
				e.Fail("%s, a query went to m%d first instead of m%d", when, c[0].member, member)
			}
		}
		g.outcome = func(int, int) int { return 0 }
		expect(20, 1, "after the failures")
		if kind.reset > 0 {
			e.Advance(groupReset - time.Second)
			e.Settle()
			expect(21, 1, "before the reset time")
			e.Advance(time.Second)
			e.Settle()
			expect(22, 0, "after the reset time")
			e.Advance(3 * groupReset)
			e.Settle()
			// And the same again.
			g.outcome = func(_, m int) int {
				if m == 0 {
					return 1
				}
				return 0
			}
			expect(23, 0, "later")
			e.Advance(groupReset - time.Second)
			e.Settle()
			expect(24, 1, "before the second reset time")
			e.Advance(time.Second)
			e.Settle()
			expect(25, 0, "after the second reset time")
		} else {
			e.Advance(10 * groupReset)
			e.Settle()
			expect(21, 1, "much later")
		}
	}
}

// p10Late: a query whose member fails after the group has already moved on
// must not move it again.
func p10Late(kind gKind) func(*vsched.Exec) {
	const n = 3
	return func(e *vsched.Exec) {
		g := newGRun(e, kind, n, false, false)
		release := false
		g.outcome = func(caller, m int) int {
			if caller == 1 && m == 0 {
				e.Wait("release", func() bool { return release })
			}
			if m == 0 {
				return 1
			}
			return 0
		}
		t := e.Go("slow", func() { g.ask(1) })
		e.Settle()
		g.ask(2)
		g.ask(3)
		release = true
		e.Join(t)
		e.Settle()
		g.ask(4)
		for _, c := range g.calls {
			if c.member == 2 {
				e.Fail("query %d was sent to the third member although the second never failed", c.caller)
			}
		}
	}
}

func init() {
	register(&Check{
		ID:    "P10",
		Level: "model_checking",
		Rule:  "every history of queries, member outcomes and clock movements up to the stated depth against an automaton of the documented order, and every schedule of 2-3 concurrent queries within the deviation bound; a state is a distinct history of (query, member, outcome, time step)",
		Assumptions: []string{"random numbers are enumerated completely for member choice and by 4 representatives for weighted choice",
			"the time of a failure that coincides with the reset instant is not examined (either order is allowed)"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			x := 0
			if tier == "thorough" {
				x = 1
			}
			serial := vsched.Config{Serial: true}
			kinds := append([]gKind{{name: "round-robin", mk: gKinds[0].mk}}, gKinds...)
			for _, k := range kinds {
				d := map[string][2]int{"round-robin": {10, 10}, "fail-rotate": {6, 5}, "fail-back": {6, 5}, "fail-back-now": {5, 4}, "random": {5, 4}, "random-now": {3, 3}, "load-balance": {2, 2}}[k.name]
				cfg := serial
				cfg.RandFixed = k.name == "load-balance"
				out = append(out,
					Scenario{Name: "history-" + k.name + "-2", Weight: 10, Cfg: cfg, Body: p10History(k, 2, d[0]+x)},
					Scenario{Name: "history-" + k.name + "-3", Weight: 10, Cfg: cfg, Body: p10History(k, 3, d[1]+x)})
				switch k.name {
				case "fail-rotate", "fail-back":
					out = append(out, sharded(2, Scenario{Name: "rotate-2-" + k.name, Weight: 10, Cfg: vsched.Config{Deviations: 4, Delay: true}, Body: p10Rotate(k, 2)})...)
					out = append(out, sharded(4, Scenario{Name: "rotate-3-" + k.name, Weight: 10, Cfg: vsched.Config{Deviations: 3, Delay: true}, Body: p10Rotate(k, 3)})...)
					out = append(out, Scenario{Name: "late-" + k.name, Cfg: vsched.Config{Deviations: 2, Delay: true}, Body: p10Late(k)})
				case "load-balance":
					out = append(out, Scenario{Name: "choice-load-balance-2", Weight: 10, Cfg: serial, Body: p10History(k, 2, 2)})
				}
			}
			for _, v := range [][3]int{{2, 2, 2}, {3, 2, 2}, {2, 3, 1}, {3, 3, 1}, {2, 3, 2}} {
				out = append(out, Scenario{Name: fmt.Sprintf("round-robin-%d-%dx%d", v[0], v[1], v[2]), Weight: 8, Cfg: vsched.Config{Deviations: 3 + x, Delay: true}, Body: p10RoundRobin(v[0], v[1], v[2])})
			}
			return out
		},
	})
}
