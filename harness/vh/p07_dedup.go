package main

import (
	"fmt"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p07: duplicate queries merged by the dedup element.

type qvar struct {
	name string
	mk   func() *dns.Msg
	key  string
}

// queryVariants lists queries that differ in one component each; equal keys
// mean "the same query".
func queryVariants() []qvar {
	mk := func(name string, typ, class uint16, do, cd bool, ecs ...dns.EDNS0) func() *dns.Msg {
		return func() *dns.Msg {
			q := query(name, typ)
			q.Question[0].Qclass = class
			q.CheckingDisabled = cd
			if do || len(ecs) > 0 {
				withOpt(q, do, ecs...)
			}
			return q
		}
	}
	return []qvar{
		{"base", mk("a.test.", 1, 1, false, false), "base"},
		{"upper", mk("A.tesT.", 1, 1, false, false), "base"},
		{"name", mk("b.test.", 1, 1, false, false), "name"},
		{"type", mk("a.test.", 28, 1, false, false), "type"},
		{"class", mk("a.test.", 1, 3, false, false), "class"},
		{"do", mk("a.test.", 1, 1, true, false), "do"},
		{"cd", mk("a.test.", 1, 1, false, true), "cd"},
		{"do+cd", mk("a.test.", 1, 1, true, true), "do+cd"},
		{"ecs4", mk("a.test.", 1, 1, false, false, subnet("1.2.3.0", 24)), "ecs4"},
		{"ecs4-len", mk("a.test.", 1, 1, false, false, subnet("1.2.3.0", 25)), "ecs4-len"},
		{"ecs4-addr", mk("a.test.", 1, 1, false, false, subnet("1.2.4.0", 24)), "ecs4-addr"},
		{"ecs4-do", mk("a.test.", 1, 1, true, false, subnet("1.2.3.0", 24)), "ecs4-do"},
		{"ecs6", mk("a.test.", 1, 1, false, false, subnet("2001:db8:1::", 48)), "ecs6"},
		{"ecs6-hi", mk("a.test.", 1, 1, false, false, subnet("2001:db8:2::", 48)), "ecs6-hi"},
		{"ecs6-lo", mk("a.test.", 1, 1, false, false, subnet("2001:db8:1::1", 128)), "ecs6-lo"},
		{"ecs6-lo2", mk("a.test.", 1, 1, false, false, subnet("2001:db8:1::2", 128)), "ecs6-lo2"},
		{"ecs6-len", mk("a.test.", 1, 1, false, false, subnet("2001:db8:1::", 56)), "ecs6-len"},
		{"ecs-cookie", mk("a.test.", 1, 1, false, false, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0011223344556677"}, subnet("1.2.3.0", 24)), "ecs4"},
	}
}

type upCall struct {
	key        string
	leader     int
	start, end int64
	outcome    int
	leaderEnd  int64
}

func p07Body(vars []qvar, callers []int, outcomes int, rounds int) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		var calls []*upCall
		inflight := map[string]int{}
		msgCaller := map[*dns.Msg]int{}
		keys := make([]string, len(callers))
		returned := make([]int, len(callers))
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			who, ok := msgCaller[q]
			if !ok {
				who = int(ci.SourceIP[3])
			}
			c := &upCall{key: keys[who], leader: who, start: e.Seq()}
			n := len(calls)
			calls = append(calls, c)
			inflight[c.key]++
			if inflight[c.key] > 1 {
				e.Fail("two upstream queries in flight for the same question %s", c.key)
			}
			c.outcome = 0
			if outcomes > 1 {
				c.outcome = e.Choose(outcomes, "outcome")
			}
			e.Pause()
			inflight[c.key]--
			c.end = e.Seq()
			switch c.outcome {
			case 1:
				return nil, fmt.Errorf("upstream failure %d", n)
			case 2:
				return nil, nil
			}
			a := reply(q, dns.RcodeSuccess, rr(fmt.Sprintf("a.test. 60 IN A 10.0.0.%d", n)), rr(fmt.Sprintf("a.test. 60 IN TXT call%d", n)))
			a.Ns = rrs("test. 60 IN NS ns.test.")
			return a, nil
		}}
		d := rdns.NewRequestDedup("dedup", up)
		type result struct {
			a       *dns.Msg
			err     error
			scratch string
		}
		results := make([][]*result, len(callers))
		var served []int
		one := func(i, round int) {
			q := vars[callers[i]].mk()
			q.Id = uint16(1000 + i*10 + round)
			keys[i] = vars[callers[i]].key
			msgCaller[q] = i
			want := full(q)
			start := e.Seq()
			ncalls := len(calls)
			ci := rdns.ClientInfo{SourceIP: []byte{10, 0, 0, byte(i)}}
			a, err := d.Resolve(q, ci)
			returned[i]++
			for _, c := range calls {
				if c.leader == i && c.leaderEnd == 0 {
					c.leaderEnd = e.Seq()
				}
			}
			if got := full(q); got != want {
				e.Fail("caller %d: its query was changed from %s to %s", i, want, got)
			}
			// Which upstream call did this come from?
			var src = -1
			switch {
			case err != nil:
				for n := range calls {
					if err.Error() == fmt.Sprintf("upstream failure %d", n) {
						src = n
					}
				}
				if src < 0 {
					e.Fail("caller %d: unexpected error %v", i, err)
				}
				if a != nil {
					e.Fail("caller %d: response along with an error", i)
				}
			case a == nil:
				for n := len(calls) - 1; n >= 0; n-- {
					if c := calls[n]; c.outcome == 2 && c.key == keys[i] && c.end != 0 && (c.leaderEnd == 0 || c.leaderEnd >= start) {
						src = n
						break
					}
				}
				if src < 0 {
					e.Fail("caller %d: dropped although no upstream call dropped", i)
				}
			default:
				if a.Id != q.Id {
					e.Fail("caller %d: response ID %d instead of %d", i, a.Id, q.Id)
				}
				if len(a.Question) != 1 || a.Question[0] != vars[callers[i]].mk().Question[0] {
					e.Fail("caller %d: question %v instead of %v", i, a.Question, vars[callers[i]].mk().Question)
				}
				if len(a.Answer) == 2 {
					fmt.Sscanf(a.Answer[1].(*dns.TXT).Txt[0], "call%d", &src)
				}
				if src < 0 || src >= len(calls) {
					e.Fail("caller %d: foreign response %s", i, sections(a))
				}
				if exp := fmt.Sprintf("0:a.test. 60 IN A 10.0.0.%d; 0:a.test. 60 IN TXT \"call%d\"; 1:test. 60 IN NS ns.test.", src, src); sections(a) != exp {
					e.Fail("caller %d: response was changed by someone else: %s", i, sections(a))
				}
			}
			c := calls[src]
			if c.key != keys[i] {
				e.Fail("caller %d (%s) got the response to a different question %s", i, keys[i], c.key)
			}
			if c.end == 0 {
				e.Fail("caller %d returned before the upstream did", i)
			}
			if src < ncalls && c.leaderEnd != 0 && c.leaderEnd < start {
				e.Fail("caller %d was given a response already delivered before it asked", i)
			}
			served = append(served, src)
			e.Outcome("%d:%d/%d", i, src, c.outcome)
			r := &result{a: a, err: err}
			results[i] = append(results[i], r)
			if a != nil {
				// Do what the elements in front may do with their response.
				a.Id = uint16(i)
				a.Rcode = 5
				for k, x := range a.Answer {
					x.Header().Ttl = uint32(7000 + i*10 + k)
					x.Header().Name = fmt.Sprintf("scribble%d.", i)
				}
				a.Answer = append(a.Answer[:1], a.Ns...)
				a.Ns[0].Header().Ttl = uint32(i)
				r.scratch = full(a)
				e.Point()
			}
		}
		run := func(i int) func() {
			return func() {
				for r := 0; r < rounds; r++ {
					one(i, r)
				}
			}
		}
		t := e.Go("caller0", run(0))
		list := []*vsched.Thread{t}
		for i := 1; i < len(callers); i++ {
			list = append(list, e.Go(fmt.Sprintf("caller%d", i), run(i)))
		}
		e.Join(list...)
		for i, rs := range results {
			if len(rs) != rounds {
				e.Fail("caller %d did not return", i)
			}
			for _, r := range rs {
				if r.a != nil && full(r.a) != r.scratch {
					e.Fail("response of caller %d changed after it was handed out: %s", i, full(r.a))
				}
			}
		}
		// The element is idle again: a new query must reach the upstream.
		n := len(calls)
		one(0, rounds)
		if len(calls) != n+1 {
			e.Fail("query after completion did not reach the upstream")
		}
	}
}

func init() {
	register(&Check{
		ID:    "P07",
		Level: "model_checking",
		Rule:  "every schedule of the dedup element with 2-3 concurrent callers within the deviation bound, every upstream outcome, every pair of query variants; states are distinct observed (caller, upstream call, outcome) histories, transitions are scheduler steps on the real code",
		Assumptions: []string{"scheduling points at every access to shared memory by instrumented code (sequential consistency)",
			"client subnets with prefix length 0 are not distinguished from no client subnet"},
		Scenarios: func(tier string) []Scenario {
			vars := queryVariants()
			var out []Scenario
			d2, d3 := 3, 2
			if tier == "thorough" {
				d2, d3 = 4, 3
			}
			out = append(out, Scenario{Name: "same-2", Weight: 50, Cfg: vsched.Config{Deviations: d2}, Body: p07Body(vars, []int{0, 1}, 3, 1)})
			out = append(out, sharded(4, Scenario{Name: "same-2x2", Weight: 60, Cfg: vsched.Config{Deviations: d3}, Body: p07Body(vars, []int{0, 1}, 2, 2)})...)
			out = append(out, sharded(8, Scenario{Name: "same-3", Weight: 100, Cfg: vsched.Config{Deviations: d3}, Body: p07Body(vars, []int{0, 1, 0}, 3, 1)})...)
			out = append(out, sharded(8, Scenario{Name: "mixed-3", Weight: 90, Cfg: vsched.Config{Deviations: d3}, Body: p07Body(vars, []int{0, 1, 2}, 2, 1)})...)
			for i := range vars {
				for j := range vars {
					out = append(out, Scenario{Name: fmt.Sprintf("pair-%s-%s", vars[i].name, vars[j].name), Cfg: vsched.Config{Deviations: 1}, Body: p07Body(vars, []int{i, j}, 1, 1)})
				}
			}
			return out
		},
	})
}
